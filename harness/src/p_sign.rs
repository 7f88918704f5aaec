//! C09-C11: signing and verification.
use crate::cesr::{self, *};
use crate::fw::*;
use crate::suites;
use crate::types::es;
use cesride::{Cigar, Indexer, Matter, Siger, Signer, Verfer};

fn hx(b: &[u8]) -> String {
    b.iter().take(200).map(|x| format!("{x:02x}")).collect()
}

pub const SUITES: [&str; 3] = ["A", "J", "Q"];
pub fn verfer_code(seed: &str, transferable: bool) -> &'static str {
    match (seed, transferable) {
        ("A", true) => "D",
        ("A", false) => "B",
        ("J", true) => "1AAB",
        ("J", false) => "1AAA",
        ("Q", true) => "1AAJ",
        (_, _) => "1AAI",
    }
}
pub fn suite_of(vcode: &str) -> &'static str {
    match vcode {
        "B" | "D" => "A",
        "1AAA" | "1AAB" => "J",
        _ => "Q",
    }
}
pub fn sig_code(seed: &str) -> &'static str {
    match seed {
        "A" => "0B",
        "J" => "0C",
        _ => "0I",
    }
}
/// small both, small current, big both, big current
pub fn index_codes(seed: &str) -> [&'static str; 4] {
    match seed {
        "A" => ["A", "B", "2A", "2B"],
        "J" => ["C", "D", "2C", "2D"],
        _ => ["E", "F", "2E", "2F"],
    }
}
pub fn rand_seed(r: &mut Rng, suite: &str) -> Vec<u8> {
    loop {
        let s = r.raw(32);
        if suites::valid_seed(suite, &s) {
            return s;
        }
    }
}
pub fn rand_msg(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257]),
        3 => r.range(1000, 9000),
        4 => match r.below(60) {
            0..=2 => r.range(60_000, 140_000),
            3 => *r.pick(&[1 << 18, (1 << 18) + 1, 300_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 33]),
            _ => 4096,
        },
        _ => r.range(2, 400),
    };
    r.raw(n)
}

/// a signer by one of the routes
fn build(c: &mut Case, suite: &str, seed: &[u8], t: Option<bool>) -> Signer {
    let text = cesr::matter_qb64(suite, seed);
    let r = match c.rng.below(6) {
        0 => Signer::new_with_raw(seed, t, Some(suite)),
        1 => Signer::new_with_qb64(&text, t),
        2 => Signer::new_with_qb64b(text.as_bytes(), t),
        3 => Signer::new_with_qb2(&dec(text.as_bytes()).unwrap(), t),
        4 => Signer::new(t, Some(suite), Some(seed), None, None, None),
        _ => {
            let mut s = seed.to_vec();
            let k = c.rng.range(0, 9);
            s.extend(c.rng.bytes(k));
            Signer::new(t, Some(suite), Some(&s), None, None, None)
        }
    };
    r.must("signer")
}

fn tri(r: &mut Rng) -> Option<bool> {
    *r.pick(&[None, Some(true), Some(false)])
}

pub fn c09_sign(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let seed = rand_seed(&mut c.rng, suite);
    let t = tri(&mut c.rng);
    let signer = build(c, suite, &seed, t);
    let vcode = verfer_code(suite, t.unwrap_or(true));
    let public = suites::public(suite, &seed).expect("public");
    let v = signer.verfer();
    c.eq("signer-code", signer.code(), suite.to_string());
    c.eq("signer-raw", signer.raw(), seed.clone());
    c.eq("verfer-code", v.code(), vcode.to_string());
    c.check(v.raw() == public, "public-key", || format!("{suite} seed {} got {} want {}", hx(&seed), hx(&v.raw()), hx(&public)));
    c.eq("verfer-transferable", v.transferable(), t.unwrap_or(true));
    c.eq("verfer-qb64", es(v.qb64()), Ok(cesr::matter_qb64(vcode, &public)));
    // verifiers rebuilt from the published forms, and the other transferability of the same key
    let text = cesr::matter_qb64(vcode, &public);
    let other = verfer_code(suite, !t.unwrap_or(true));
    let verfers = [
        ("own", v.clone()),
        ("text", Verfer::new_with_qb64(&text).must("verfer")),
        ("bin", Verfer::new_with_qb2(&dec(text.as_bytes()).unwrap()).must("verfer")),
        ("raw", Verfer::new_with_raw(&public, Some(vcode)).must("verfer")),
        ("other-transferability", Verfer::new_with_raw(&public, Some(other)).must("verfer")),
    ];
    for _ in 0..3 {
        let msg = rand_msg(&mut c.rng);
        let cigar = signer.sign_unindexed(&msg).must("sign_unindexed");
        c.eq("sig-code", cigar.code(), sig_code(suite).to_string());
        c.check(cigar.verfer() == v, "sig-verfer", || format!("{:?} {:?}", cigar.verfer(), v));
        let only = c.rng.bool();
        let index = crate::p_codec::rand_field(&mut c.rng, 2);
        let ondex = if only || c.rng.bool() { None } else { Some(crate::p_codec::rand_field(&mut c.rng, 2)) };
        let siger = signer.sign_indexed(&msg, only, index, ondex).must("sign_indexed");
        let cigar_again = Cigar::new_with_qb64(&cigar.qb64().must("cigar qb64"), Some(&v)).must("cigar");
        let siger_again = Siger::new_with_qb2(&siger.qb2().must("siger qb2"), Some(&v)).must("siger");
        c.eq("cigar-reread", cigar_again.raw(), cigar.raw());
        c.eq("siger-reread", siger_again.raw(), siger.raw());
        for (kind, sig) in [("unindexed", cigar.raw()), ("indexed", siger.raw())] {
            let d = format!("{suite} seed {} msg[{}] {} sig {}", hx(&seed), msg.len(), hx(&msg), hx(&sig));
            for (n, vf) in &verfers {
                let r = es(vf.verify(&sig, &msg));
                c.check(r == Ok(true), &format!("own-signature-refused:{kind}:{n}"), || format!("{r:?} {d}"));
                c.ev("verified true");
            }
            c.check(suites::verify(suite, &public, &sig, &msg) == Some(true), &format!("independent-verifier-refuses:{kind}"), || d.clone());
            if suite == "A" {
                c.check(sig == suites::ed_sign(&seed, &msg), &format!("not-standard-ed25519:{kind}"), || d.clone());
                c.ev("ed25519 equal to standard");
            }
            c.seen(&(suite, &seed, &msg, kind));
        }
        c.sample(|| format!("{suite} {vcode} msg {} bytes sig {}", msg.len(), hx(&cigar.raw())));
    }
    // using the signer does not change it
    c.eq("signer-changed", signer.raw(), seed.clone());
    c.check(signer.verfer() == v, "signer-verfer-changed", || String::new());
}

/// refusals: seeds that are no private key
pub fn c09_bad_seeds(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let n_k1 = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
    let n_r1 = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551";
    let unhex = |s: &str| (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let cands = [vec![0u8; 32], vec![0xff; 32], unhex(n_k1), unhex(n_r1), {
        let mut x = unhex(n_k1);
        x[31] -= 1;
        x
    }, {
        let mut x = unhex(n_r1);
        x[31] -= 1;
        x
    }, {
        let k = c.rng.below(32);
        c.rng.raw(k)
    }];
    for s in cands {
        let ok = suites::valid_seed(suite, &s);
        let r = es(Signer::new_with_raw(&s, None, Some(suite)));
        c.check(r.is_ok() == ok, "seed-validity", || format!("{suite} {} want ok={ok}", hx(&s)));
        c.ev(if ok { "edge seed accepted" } else { "invalid seed refused" });
        if let Ok(sg) = r {
            let sig = sg.sign_unindexed(b"x").must("sign");
            c.check(suites::verify(suite, &sg.verfer().raw(), &sig.raw(), b"x") == Some(true), "edge-seed-signature", || hx(&s));
        }
        c.seen(&(suite, &s));
    }
    // no other code makes a signer
    for code in ["B", "D", "0A", "0B", "E", "C", "K", "1AAA", "ZZ", ""] {
        c.check(Signer::new_with_raw(&[7; 64], None, Some(code)).is_err(), "foreign-code-signer", || code.to_string());
    }
}

fn order(suite: &str) -> num_bigint::BigUint {
    use num_bigint::BigUint;
    match suite {
        "A" => (BigUint::from(1u8) << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap(),
        "J" => BigUint::parse_bytes(b"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap(),
        _ => BigUint::parse_bytes(b"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16).unwrap(),
    }
}
fn be32(n: &num_bigint::BigUint) -> Vec<u8> {
    let b = n.to_bytes_be();
    let mut v = vec![0u8; 32usize.saturating_sub(b.len())];
    v.extend_from_slice(&b);
    v
}

/// what the monitor expects of verify(): Some(true) only if the suite says so
fn judge(c: &mut Case, what: &str, v: &Verfer, sig: &[u8], msg: &[u8], never: bool) {
    let suite = suite_of(&v.code());
    let oracle = suites::verify(suite, &v.raw(), sig, msg) == Some(true);
    let got = c.total("verify", || format!("{what} {} sig {} msg {}", v.code(), hx(sig), hx(msg)), || v.verify(sig, msg));
    let Some(got) = got else { return };
    let got = matches!(got, Ok(true));
    let d = || format!("{} key {} sig[{}] {} msg[{}] {}", v.code(), hx(&v.raw()), sig.len(), hx(sig), msg.len(), hx(msg));
    c.check(got == oracle, &format!("differs-from-suite:{what}"), || format!("got {got} {}", d()));
    if never {
        c.check(!got, &format!("accepted:{what}"), d);
    }
    c.ev(if got { "accepted" } else { "rejected" });
    c.seen(&(what, v.code(), v.raw(), sig, msg));
}

pub fn c10_tamper(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let seed = rand_seed(&mut c.rng, suite);
    let t = tri(&mut c.rng);
    let signer = build(c, suite, &seed, t);
    let v = signer.verfer();
    let msg = rand_msg(&mut c.rng);
    let sig = if c.rng.bool() {
        signer.sign_unindexed(&msg).must("sign").raw()
    } else {
        signer.sign_indexed(&msg, c.rng.bool(), c.rng.below(100) as u32, None).must("sign").raw()
    };
    judge(c, "genuine", &v, &sig, &msg, false);
    c.check(matches!(v.verify(&sig, &msg), Ok(true)), "genuine-refused", || hx(&sig));
    // signature bits
    for _ in 0..8 {
        let mut s = sig.clone();
        let i = c.rng.below(s.len() * 8);
        s[i / 8] ^= 1 << (i % 8);
        judge(c, "sig-bit", &v, &s, &msg, true);
    }
    // lengths
    let k = c.rng.below(sig.len());
    judge(c, "sig-truncated", &v, &sig[..k], &msg, true);
    judge(c, "sig-empty", &v, &[], &msg, true);
    let mut s = sig.clone();
    let n = c.rng.range(1, 70);
    s.extend(c.rng.raw(n));
    judge(c, "sig-extended", &v, &s, &msg, true);
    s = sig.clone();
    s.extend_from_slice(&sig);
    judge(c, "sig-doubled", &v, &s, &msg, true);
    s = sig[32..].to_vec();
    s.extend_from_slice(&sig[..32]);
    judge(c, "sig-halves-swapped", &v, &s, &msg, true);
    s = sig.clone();
    s.reverse();
    judge(c, "sig-reversed", &v, &s, &msg, true);
    for half in [0, 32] {
        let mut s = sig.clone();
        s[half..half + 32].fill(0);
        judge(c, "sig-zero-half", &v, &s, &msg, true);
        let mut s = sig.clone();
        s[half..half + 32].copy_from_slice(&be32(&order(suite)));
        judge(c, "sig-order-half", &v, &s, &msg, true);
    }
    judge(c, "sig-zero", &v, &[0; 64], &msg, true);
    let rnd = c.rng.raw(64);
    judge(c, "sig-random", &v, &rnd, &msg, true);
    // the algebraic relatives of a signature
    if suite == "A" {
        // s + L : not canonical
        let mut le = sig[32..].to_vec();
        le.reverse();
        let sum = num_bigint::BigUint::from_bytes_be(&le) + order("A");
        if sum.bits() <= 256 {
            let mut b = be32(&sum);
            b.reverse();
            let mut s = sig[..32].to_vec();
            s.extend(b);
            judge(c, "sig-noncanonical-s", &v, &s, &msg, true);
        }
    } else {
        let sv = num_bigint::BigUint::from_bytes_be(&sig[32..]);
        let neg = order(suite) - &sv;
        let mut s = sig[..32].to_vec();
        s.extend(be32(&neg));
        judge(c, "sig-negated-s", &v, &s, &msg, false);
        let der: Vec<u8> = if suite == "J" {
            k256::ecdsa::Signature::from_slice(&sig).unwrap().to_der().as_bytes().to_vec()
        } else {
            p256::ecdsa::Signature::from_slice(&sig).unwrap().to_der().as_bytes().to_vec()
        };
        judge(c, "sig-der", &v, &der, &msg, true);
    }
    // the text and code of the signature are not the signature
    let q = cesr::matter_qb64(sig_code(suite), &sig);
    judge(c, "sig-as-text", &v, q.as_bytes(), &msg, true);
    // message
    for _ in 0..3 {
        let mut m = msg.clone();
        match c.rng.below(8) {
            6 | 7 => m = c.rng.tidied(&msg),
            0 if !m.is_empty() => {
                let i = c.rng.below(m.len() * 8);
                m[i / 8] ^= 1 << (i % 8);
            }
            1 if !m.is_empty() => {
                m.pop();
            }
            2 if !m.is_empty() => {
                m.remove(0);
            }
            3 => m.push(0),
            4 => m.insert(0, 0),
            _ => {
                let k = c.rng.below(m.len() + 1);
                let b = c.rng.u32() as u8;
                m.insert(k, b);
                if m == msg {
                    continue;
                }
            }
        }
        if m != msg {
            judge(c, "message-changed", &v, &sig, &m, true);
        }
    }
    let d = {
        use sha2::Digest;
        sha2::Sha256::digest(&msg).to_vec()
    };
    judge(c, "message-prehashed", &v, &sig, &d, true);
    // key: another signer, same suite and other suites
    for s2 in SUITES {
        let seed2 = rand_seed(&mut c.rng, s2);
        if s2 == suite && seed2 == seed {
            continue;
        }
        let other = build(c, s2, &seed2, t).verfer();
        judge(c, "foreign-key", &other, &sig, &msg, true);
        c.check(other != v, "different-keys-equal", || format!("{other:?} {v:?}"));
    }
    // same seed in another suite
    for s2 in SUITES {
        if s2 != suite && suites::valid_seed(s2, &seed) {
            let other = build(c, s2, &seed, t).verfer();
            judge(c, "same-seed-other-suite", &other, &sig, &msg, true);
        }
    }
    // key bits (may stop being a key: then an error)
    for _ in 0..4 {
        let mut k = v.raw();
        let i = c.rng.below(k.len() * 8);
        k[i / 8] ^= 1 << (i % 8);
        if let Ok(o) = Verfer::new_with_raw(&k, Some(&v.code())) {
            judge(c, "key-bit", &o, &sig, &msg, true);
            c.check(o != v, "different-keys-equal", || hx(&k));
        }
    }
    // key bytes under the code of another suite with the same key size
    let vcodes: &[&str] = if suite == "A" { &["B", "D"] } else { &["1AAA", "1AAB", "1AAI", "1AAJ"] };
    for vc in vcodes {
        if let Ok(o) = Verfer::new_with_raw(&v.raw(), Some(vc)) {
            judge(c, "key-recoded", &o, &sig, &msg, suite_of(vc) != suite);
            c.eq("key-code-equality", o == v, *vc == v.code());
        }
    }
    for bad in [vec![0u8; v.raw().len()], vec![0xff; v.raw().len()], c.rng.bytes(v.raw().len())] {
        if let Ok(o) = Verfer::new_with_raw(&bad, Some(&v.code())) {
            judge(c, "random-key", &o, &sig, &msg, true);
        }
    }
    // equality of signatures
    let a = Cigar::new_with_raw(&sig, Some(&v), Some(sig_code(suite))).must("cigar");
    let mut s = sig.clone();
    let i = c.rng.below(512);
    s[i / 8] ^= 1 << (i % 8);
    let b = Cigar::new_with_raw(&s, Some(&v), Some(sig_code(suite))).must("cigar");
    c.check(a != b, "different-signatures-equal", || hx(&s));
    c.check(a == a.clone(), "signature-not-equal-to-itself", || hx(&sig));
    let code = index_codes(suite)[0];
    let a = Siger::new_with_raw(&sig, Some(&v), Some(3), None, Some(code)).must("siger");
    for (raw, ix) in [(&s, 3u32), (&sig, 4)] {
        let b = Siger::new_with_raw(raw, Some(&v), Some(ix), None, Some(code)).must("siger");
        c.check(a != b, "different-signatures-equal", || hx(raw));
    }
}

/// forgeries against degenerate keys: the result must be the suite's own
pub fn c10_degenerate(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let n = if suite == "A" { 32 } else { 33 };
    let mut key = c.rng.raw(n);
    if suite == "A" {
        // low-order and non-canonical points
        let pts = [
            "0100000000000000000000000000000000000000000000000000000000000000",
            "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
            "0000000000000000000000000000000000000000000000000000000000000080",
            "0000000000000000000000000000000000000000000000000000000000000000",
            "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
            "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        ];
        if c.rng.bool() {
            let p = *c.rng.pick(&pts);
            key = (0..32).map(|i| u8::from_str_radix(&p[2 * i..2 * i + 2], 16).unwrap()).collect();
        }
    } else {
        key[0] = *c.rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 0xff]);
    }
    let vcode = verfer_code(suite, c.rng.bool());
    let Ok(v) = Verfer::new_with_raw(&key, Some(vcode)) else { return };
    let msg = rand_msg(&mut c.rng);
    let mut sig = c.rng.raw(64);
    if c.rng.bool() {
        sig[..32].copy_from_slice(&key[..32]);
        sig[32..].fill(0);
    }
    judge(c, "degenerate", &v, &sig, &msg, false);
    let n = c.rng.range(0, 140);
    let sig = c.rng.raw(n);
    judge(c, "degenerate-length", &v, &sig, &msg, n != 64);
}

fn pick_index(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 62, 63, 64, 65, 66]),
        1 => *r.pick(&[4094, 4095, 4096, 4097, 100, 128]),
        2 => r.below(64) as u32,
        3 => *r.pick(&[262_143, 262_144, 1 << 24, u32::MAX, u32::MAX - 1, 65_536]),
        _ => r.below(4096) as u32,
    }
}

fn c11_one(c: &mut Case, suite: &str, signer: &Signer, msg: &[u8], only: bool, index: u32, ondex: Option<u32>) {
    let r = c.total("sign_indexed", || format!("{index} {ondex:?} {only}"), || es(signer.sign_indexed(msg, only, index, ondex)));
    let Some(r) = r else { return };
    let other = if only { 0 } else { ondex.unwrap_or(index) };
    let fits = index < 4096 && other < 4096;
    let d = format!("{suite} index {index} ondex {ondex:?} only {only}");
    if !fits {
        c.check(r.is_err(), "too-large-index-signed", || d.clone());
        c.ev("too large refused");
        c.seen(&(suite, index, ondex, only));
        return;
    }
    let s = match r {
        Ok(s) => s,
        Err(e) => {
            c.fail("refused:sign_indexed", format!("{d}: {e}"));
            return;
        }
    };
    let small = index < 64 && (only || other == index);
    let codes = index_codes(suite);
    let code = codes[usize::from(only) + if small { 0 } else { 2 }];
    c.check(s.code() == code, "code", || format!("{d}: got {} want {code}", s.code()));
    c.check(s.index() == index, "index", || format!("{d}: {}", s.index()));
    c.check(s.ondex() == other, "ondex", || format!("{d}: {}", s.ondex()));
    c.check(s.verfer() == signer.verfer(), "verfer", || d.clone());
    c.check(matches!(signer.verfer().verify(&s.raw(), msg), Ok(true)), "unverifiable", || d.clone());
    let field = if icode(code).unwrap().os > 0 { other } else { 0 };
    let text = indexer_qb64(code, &s.raw(), index, field);
    c.check(es(s.qb64()).as_ref() == Ok(&text), "text", || format!("{d}: {:?} want {text}", s.qb64()));
    let bin = dec(text.as_bytes()).unwrap();
    c.check(es(s.qb2()).as_ref() == Ok(&bin), "binary", || d.clone());
    let v = signer.verfer();
    for (n, again) in [
        ("text", es(Siger::new_with_qb64(&text, Some(&v)))),
        ("bytes", es(Siger::new_with_qb64b(text.as_bytes(), Some(&v)))),
        ("bin", es(Siger::new_with_qb2(&bin, Some(&v)))),
    ] {
        match again {
            Ok(a) => {
                c.check(a.index() == index && a.ondex() == other && a.code() == code && a.raw() == s.raw(), &format!("reread:{n}"), || format!("{d}: {a:?}"));
                c.check(a == s, &format!("reread-equal:{n}"), || format!("{d}: {a:?} {s:?}"));
            }
            Err(e) => c.fail(&format!("refused:reread:{n}"), format!("{d}: {e}")),
        }
    }
    c.ev(if small { "small code" } else { "big code" });
    c.ev(if only { "current only" } else { "both lists" });
    c.sample(|| format!("{d} -> {text}"));
    c.seen(&(suite, index, ondex, only));
}

pub fn c11_random(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let seed = rand_seed(&mut c.rng, suite);
    let t = tri(&mut c.rng);
    let signer = build(c, suite, &seed, t);
    let msg = rand_msg(&mut c.rng);
    for _ in 0..6 {
        let index = pick_index(&mut c.rng);
        let ondex = match c.rng.below(4) {
            0 => None,
            1 => Some(index),
            _ => Some(pick_index(&mut c.rng)),
        };
        let only = c.rng.bool();
        c11_one(c, suite, &signer, &msg, only, index, ondex);
    }
}

/// all pairs of small indices with every option, Ed25519
pub fn c11_pairs(c: &mut Case) {
    let signer = Signer::new_with_raw(&[c.index as u8; 32], Some(true), Some("A")).must("signer");
    let index = c.index as u32 % 70;
    for o in (0..70).step_by(if c.thorough { 1 } else { 3 }) {
        c11_one(c, "A", &signer, b"m", false, index, Some(o));
    }
    c11_one(c, "A", &signer, b"m", false, index, Some(index));
    c11_one(c, "A", &signer, b"m", false, index, None);
    c11_one(c, "A", &signer, b"m", true, index, None);
    c11_one(c, "A", &signer, b"m", true, index, Some(index));
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "an execution is one signature over one message by one signer, verified under its key by the library and by the suite's own implementation; distinct by (suite, seed, message, kind)",
            sections: vec![sec("sign", 2_400, 120_000, c09_sign), sec("edge-seeds", 300, 6_000, c09_bad_seeds)],
            require: vec![("verified true", 20_000), ("ed25519 equal to standard", 3_000), ("invalid seed refused", 500), ("edge seed accepted", 300)],
            assumptions: vec!["ed25519-dalek, k256 and p256, called directly, are correct implementations of the suites"],
            termination: false,
        },
        Property {
            id: "C10",
            rule: "an execution is one verification of an altered, foreign or malformed (key, signature, message) compared with the suite's verdict; distinct by that triple",
            sections: vec![sec("tamper", 1_500, 60_000, c10_tamper), sec("degenerate", 3_000, 200_000, c10_degenerate)],
            require: vec![("rejected", 30_000), ("accepted", 1_000)],
            assumptions: vec!["ed25519-dalek, k256 and p256, called directly, give the suites' verdict; (r, n-s) is the same ECDSA signature where the suite says so"],
            termination: false,
        },
        Property {
            id: "C11",
            rule: "an execution is one indexed signing request (suite, index, other-index, only), judged on code, fields, key and encodings; distinct by that tuple",
            sections: vec![sec("random", 9_000, 60_000, c11_random), sec("pairs", 70, 70, c11_pairs)],
            require: vec![("small code", 1_000), ("big code", 1_000), ("too large refused", 500), ("current only", 1_000)],
            assumptions: vec!["the reference indexed code table"],
            termination: false,
        },
    ]
}
