//! C18, C19: salt stretching and fresh secrets.
use crate::cesr::{dec, matter_qb64};
use crate::fw::*;
use crate::p_sign::{rand_msg, sig_code, verfer_code, SUITES};
use crate::suites;
use crate::types::es;
use cesride::{Matter, Salter, Signer, Verfer};
use std::collections::HashMap;
use std::sync::Mutex;

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Argon2id version 1.3, one lane, at the libsodium cost of the tier
fn reference(path: &str, salt: &[u8], tier: &str, size: usize) -> Vec<u8> {
    let (m, t) = match tier {
        "min" => (8, 1),
        "low" => (65536, 2),
        "med" => (262144, 3),
        _ => (1048576, 4),
    };
    let p = argon2::Params::new(m, t, 1, Some(size)).expect("params");
    let mut out = vec![0u8; size];
    argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, p)
        .hash_password_into(path.as_bytes(), salt, &mut out)
        .expect("argon2");
    out
}

fn rand_path(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        8 | 9 => {
            // ends that a tidying hand would cut
            let n = r.range(0, 12);
            let p: String = (0..n).map(|_| *r.pick(&['a', 'b', '0', '7', 'f', 'A'])).collect();
            let ends = ["/", "//", " ", "\n", "\0", "\u{feff}", ".", "..", "-", "_", "\u{a0}", "0", "00", "?", "#", "=", "%20", "\\", "m/", "é"];
            let (a, b) = (*r.pick(&ends), *r.pick(&ends));
            match r.below(4) {
                0 => format!("{a}{p}"),
                1 => format!("{p}{b}"),
                2 => format!("{p}{a}{p}"),
                _ => format!("{a}{p}{b}"),
            }
        }
        1 => "0".into(),
        2 => format!("{:x}", r.u32()),
        3 => "é€𝄞/..\u{0}x".chars().skip(r.below(5)).collect(),
        4 => (0..r.range(60, 300)).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        _ => {
            let n = r.range(1, 20);
            (0..n).map(|_| *r.pick(&['a', 'b', '0', '1', 'f', '-', '_', '.', 'A', ' '])).collect()
        }
    }
}

fn salter(r: &mut Rng, salt: &[u8], tier: Option<&str>) -> (Salter, &'static str) {
    let text = matter_qb64("0A", salt);
    let how = r.below(6);
    let s = match how {
        0 => Salter::new_with_raw(salt, Some("0A"), tier),
        1 => Salter::new_with_raw(salt, None, tier),
        2 => Salter::new_with_qb64(&text, tier),
        3 => Salter::new_with_qb64b(text.as_bytes(), tier),
        4 => Salter::new_with_qb2(&dec(text.as_bytes()).unwrap(), tier),
        _ => Salter::new(tier, Some("0A"), Some(salt), None, None, None),
    };
    (s.must("salter"), ["raw", "raw-default", "qb64", "qb64b", "qb2", "new"][how])
}

fn check_signer(c: &mut Case, what: &str, s: &Signer, suite: &str, t: bool, seed: &[u8]) {
    c.check(s.code() == suite, "signer-code", || format!("{what} {}", s.code()));
    c.check(s.raw() == seed, "signer-seed", || format!("{what} got {} want {}", hx(&s.raw()), hx(seed)));
    c.check(s.verfer().code() == verfer_code(suite, t), "signer-transferability", || format!("{what} {}", s.verfer().code()));
    c.check(s.verfer().transferable() == t, "transferable", || what.to_string());
    let want = suites::public(suite, seed).expect("seed");
    c.check(s.verfer().raw() == want, "signer-key", || format!("{what} got {} want {}", hx(&s.verfer().raw()), hx(&want)));
}

/// stretching and key creation at the temporary tier
pub fn c18_derive(c: &mut Case) {
    let salt = c.rng.raw(16);
    let tier = *c.rng.pick(&[None, Some("low"), Some("med"), Some("high"), Some("min")]);
    let (s, how) = salter(&mut c.rng, &salt, tier);
    c.check(s.tier() == tier.unwrap_or("low"), "tier", || format!("{tier:?} {}", s.tier()));
    for _ in 0..4 {
        let path = rand_path(&mut c.rng);
        let what = format!("salt {} path {path:?} {how}", hx(&salt));
        // the temporary flag wins over any tier
        let ask = *c.rng.pick(&[None, Some("low"), Some("high"), Some("min")]);
        // the least tier by name, or as the tier of the salt, needs no flag
        let (ask, flag) = match tier {
            None | Some("low") if c.rng.chance(1, 4) => (Some("min"), *c.rng.pick(&[None, Some(false)])),
            Some("min") if c.rng.chance(1, 2) => (*c.rng.pick(&[None, Some("min")]), *c.rng.pick(&[None, Some(false)])),
            _ => (ask, Some(true)),
        };
        match c.rng.below(3) {
            0 => {
                let size = match c.index % 32 {
                    7 => *c.rng.pick(&[1023usize, 1024, 1025, 4096, 5000, 65_536, 70_001, 1_048_577]),
                    _ => *c.rng.pick(&[4usize, 16, 31, 32, 33, 64, 65, 128, 200, 256, 257, 511]),
                };
                let r = c.total("stretch", || what.clone(), || es(s.stretch(Some(size), Some(&path), ask, flag)));
                let want = reference(&path, &salt, "min", size);
                c.check(r == Some(Ok(want.clone())), "stretch", || format!("{what} size {size}: {r:?}"));
                // an explicit minimal tier needs no flag
                let r = es(s.stretch(Some(size), Some(&path), Some("min"), if c.index % 2 == 0 { None } else { Some(false) }));
                c.check(r == Ok(want), "stretch-min", || format!("{what} size {size}: {r:?}"));
                if size == 32 {
                    c.check(es(s.stretch(None, Some(&path), ask, flag)) == Ok(reference(&path, &salt, "min", 32)), "stretch-default-size", || what.clone());
                }
                c.evn("stretched", 2);
            }
            1 => {
                let suite = *c.rng.pick(&SUITES);
                let t = *c.rng.pick(&[None, Some(true), Some(false)]);
                let code = if suite == "A" && c.rng.bool() { None } else { Some(suite) };
                let seed = reference(&path, &salt, "min", 32);
                let one = s.signer(code, t, Some(&path), ask, flag).must("signer");
                check_signer(c, &what, &one, suite, t.unwrap_or(true), &seed);
                let two = s.signer(code, t, Some(&path), ask, flag).must("signer");
                c.check(one == two, "not-repeatable", || what.clone());
                let (s2, _) = salter(&mut c.rng, &salt, tier);
                c.check(s2.signer(code, t, Some(&path), ask, flag).must("signer") == one, "depends-on-route", || what.clone());
                c.ev("signers derived");
            }
            _ => {
                let suite = *c.rng.pick(&SUITES);
                let t = c.rng.bool();
                let n = c.rng.below(6);
                let start = match c.rng.below(4) {
                    0 => 0,
                    1 => c.rng.below(20),
                    2 => *c.rng.pick(&[9usize, 10, 15, 16, 255, 4095, 65535, u32::MAX as usize]),
                    _ => (c.rng.u64() >> 2) as usize,
                };
                let v = s.signers(Some(n), Some(start), Some(&path), Some(suite), Some(t), ask, flag).must("signers");
                c.check(v.len() == n, "signers-count", || format!("{what} {} of {n}", v.len()));
                for (i, x) in v.iter().enumerate() {
                    let p = format!("{path}{:x}", start + i);
                    let seed = reference(&p, &salt, "min", 32);
                    check_signer(c, &format!("{what} number {}", start + i), x, suite, t, &seed);
                }
                if c.rng.chance(1, 100) {
                    // a long sequence, looked at in places
                    let n = c.rng.range(250, 600);
                    let v = s.signers(Some(n), Some(start), Some(&path), Some(suite), Some(t), ask, flag).must("signers");
                    c.check(v.len() == n, "signers-count", || format!("{what} {} of {n}", v.len()));
                    for k in 0..12 {
                        let i = if k == 0 { v.len() - 1 } else if k == 1 { 256.min(v.len() - 1) } else { c.rng.below(v.len()) };
                        let seed = reference(&format!("{path}{:x}", start + i), &salt, "min", 32);
                        check_signer(c, &format!("{what} number {}", start + i), &v[i], suite, t, &seed);
                    }
                    let all: std::collections::HashSet<Vec<u8>> = v.iter().map(|x| x.raw()).collect();
                    c.check(all.len() == v.len(), "repeated-key", || format!("{what}: {} of {}", all.len(), v.len()));
                    c.ev("long sequences");
                }
                // an overlapping range agrees
                if n > 1 {
                    let w = s.signers(Some(n), Some(start + 1), Some(&path), Some(suite), Some(t), ask, flag).must("signers");
                    for i in 1..n {
                        c.check(w[i - 1] == v[i], "ranges-disagree", || format!("{what} {}", start + i));
                    }
                    for i in 0..n {
                        for j in 0..i {
                            c.check(v[i].raw() != v[j].raw(), "repeated-key", || format!("{what} {i} {j}"));
                        }
                    }
                }
                c.evn("signers in sequences", n as u64);
            }
        }
        c.seen(&(&salt, &path));
    }
    if c.index % 16 == 0 {
        let d = s.signers(None, None, None, None, None, None, Some(true)).must("signers");
        c.check(d.len() == 1, "default-count", || format!("{}", d.len()));
        check_signer(c, "default signers", &d[0], "A", true, &reference("0", &salt, "min", 32));
        let d = s.signer(None, None, None, None, Some(true)).must("signer");
        check_signer(c, "default signer", &d, "A", true, &reference("", &salt, "min", 32));
        for (size, t) in [(0, "min"), (3, "min"), (32, "max"), (32, ""), (32, "LOW"), (32, "low ")] {
            let r = c.total("stretch", || format!("{size} {t}"), || es(s.stretch(Some(size), Some("p"), Some(t), None)));
            c.check(matches!(r, Some(Err(_))), "bad-parameters-accepted", || format!("{size} {t} {r:?}"));
        }
        for code in ["E", "0A", "D", "zz", "", "é"] {
            let r = c.total("signer", || code.into(), || es(s.signer(Some(code), None, Some("p"), None, Some(true))));
            c.check(matches!(r, Some(Err(_))), "bad-suite-accepted", || format!("{code}"));
        }
        c.ev("defaults");
    }
    // neighbours differ: one bit of salt, one character of path
    let mut salt2 = salt.clone();
    salt2[c.rng.below(16)] ^= 1 << c.rng.below(8);
    let (s2, _) = salter(&mut c.rng, &salt2, None);
    let a = s.stretch(Some(32), Some("x1"), None, Some(true)).must("stretch");
    c.check(s2.stretch(Some(32), Some("x1"), None, Some(true)).must("stretch") != a, "salt-ignored", || hx(&salt));
    c.check(s.stretch(Some(32), Some("x2"), None, Some(true)).must("stretch") != a, "path-ignored", || hx(&salt));
    c.check(s.stretch(Some(32), Some("x10"), None, Some(true)).must("stretch") != a, "path-truncated", || hx(&salt));
    c.evn("neighbours", 3);
    c.sample(|| format!("salt {} x1 -> {}", hx(&salt), hx(&a)));
}

/// the real tiers
pub fn c18_tiers(c: &mut Case) {
    // low twice as often as med; high only in thorough runs
    let pickable: &[&str] = if c.thorough { &["low", "low", "low", "low", "low", "low", "med", "med", "med", "high"] } else { &["low", "low", "low", "low", "low", "low", "low", "med"] };
    let tier = pickable[c.index as usize % pickable.len()];
    let salt = match c.rng.below(4) {
        0 => {
            let b = *c.rng.pick(&[0u8, 1, 0x30, 0x7f, 0xff]);
            vec![b; 16]
        }
        1 => c.rng.raw(16),
        _ => c.rng.bytes(16),
    };
    let path = rand_path(&mut c.rng);
    let want = reference(&path, &salt, tier, 32);
    let what = format!("tier {tier} salt {} path {path:?}", hx(&salt));
    // the same salt, path and size at the temporary tier, before and after the tier itself
    let temporary = reference(&path, &salt, "min", 32);
    let (near, _) = salter(&mut c.rng, &salt, Some(tier));
    let before = c.rng.bool();
    let at_min = |c: &mut Case, when: &str| {
        let r = es(near.stretch(None, Some(&path), None, Some(true)));
        c.check(r.as_ref() == Ok(&temporary), "temporary-beside-tier", || format!("{what} {when}: {r:?}"));
        let r = es(near.signer(None, None, Some(&path), None, Some(true)).map(|x| x.raw()));
        c.check(r.as_ref() == Ok(&temporary), "temporary-signer-beside-tier", || format!("{what} {when}: {r:?}"));
    };
    if before {
        at_min(c, "before");
    }
    match c.index / 2 % 3 {
        // the tier of the salt
        0 => {
            let own = if tier == "low" && c.rng.bool() { None } else { Some(tier) };
            let (s, _) = salter(&mut c.rng, &salt, own);
            let r = es(s.stretch(None, Some(&path), None, if c.rng.bool() { None } else { Some(false) }));
            c.check(r.as_ref() == Ok(&want), "tier-stretch", || format!("{what} {r:?}"));
        }
        // the tier asked for wins over the tier of the salt
        1 => {
            let (s, _) = salter(&mut c.rng, &salt, Some(if tier == "low" { "high" } else { "low" }));
            let suite = *c.rng.pick(&SUITES);
            let t = c.rng.bool();
            let x = s.signer(Some(suite), Some(t), Some(&path), Some(tier), Some(false)).must("signer");
            check_signer(c, &what, &x, suite, t, &want);
        }
        _ => {
            let (s, _) = salter(&mut c.rng, &salt, Some(tier));
            let n = c.rng.below(40);
            let v = s.signers(Some(1), Some(n), Some(&path), None, None, None, None).must("signers");
            let want = reference(&format!("{path}{n:x}"), &salt, tier, 32);
            check_signer(c, &what, &v[0], "A", true, &want);
        }
    }
    at_min(c, "after");
    c.ev(&format!("tier {tier}"));
    c.seen(&(tier, salt, path));
}

/// the most expensive tier once (a gigabyte for each side)
pub fn c18_high(c: &mut Case) {
    let salt = c.rng.bytes(16);
    let s = Salter::new_with_raw(&salt, None, Some("high")).must("salter");
    let (want, got) = std::thread::scope(|sc| {
        let h = sc.spawn(|| reference("k1f", &salt, "high", 32));
        let got = es(s.signers(Some(1), Some(31), Some("k"), None, None, None, None));
        (h.join().expect("reference"), got)
    });
    let got = got.must("signers");
    check_signer(c, "tier high", &got[0], "A", true, &want);
    c.ev("tier high");
    c.seen(&salt);
}

/// values published by the reference implementation
pub fn c18_vectors(c: &mut Case) {
    let s = Salter::new_with_raw(b"0123456789abcdef", None, None).must("salter");
    c.check(es(s.qb64()) == Ok("0AAwMTIzNDU2Nzg5YWJjZGVm".into()), "vector", || format!("{:?}", s.qb64()));
    for (temp, seed, key) in [
        (true, "AMPsqBZxWdtYpBhrWnKYitwFa77s902Q-nX3sPTzqs0R", "DFYFwZJOMNy3FknECL8tUaQZRBUyQ9xCv6F8ckG-UCrC"),
        (false, "AEkqQiNTexWB9fTLpgJp_lXW63tFlT-Y0_mgQww4o-dC", "DPJGyH9H1M_SUSf18RzX8OqdyhxEyZJpKm5Em0PnpsWd"),
    ] {
        let x = s.signer(None, None, Some("01"), None, Some(temp)).must("signer");
        c.check(es(x.qb64()) == Ok(seed.into()), "vector", || format!("{:?} want {seed}", x.qb64()));
        c.check(es(x.verfer().qb64()) == Ok(key.into()), "vector", || format!("{:?} want {key}", x.verfer().qb64()));
        c.ev("published vectors");
        c.seen(&key);
    }
}

// ---------------------------------------------------------------- C19

static SEEN: Mutex<Option<HashMap<[u8; 8], String>>> = Mutex::new(None);
static BITS: Mutex<Option<HashMap<&'static str, (u64, Vec<u64>)>>> = Mutex::new(None);

/// registers fragments of a fresh secret; a fragment met before is a repetition
fn register(c: &mut Case, kind: &'static str, raw: &[u8]) {
    let mut g = SEEN.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    let me = format!("{kind} #{}", c.index);
    for (i, ch) in raw.chunks_exact(8).enumerate() {
        let k: [u8; 8] = ch.try_into().unwrap();
        if let Some(o) = m.insert(k, format!("{me} part {i}")) {
            c.fail("repeated-secret", format!("part {i} of {me} ({}) is also in {o}", hx(raw)));
        }
    }
    drop(g);
    let mut distinct = [false; 256];
    raw.iter().for_each(|b| distinct[*b as usize] = true);
    let n = distinct.iter().filter(|x| **x).count();
    c.check(n * 5 >= raw.len() * 2 && n > 5, "low-entropy", || format!("{kind} {}", hx(raw)));
    for i in 0..raw.len() - 5 {
        for j in 0..i {
            if raw[i..i + 6] == raw[j..j + 6] {
                c.fail("periodic-secret", format!("{kind} {}", hx(raw)));
                return;
            }
        }
    }
    // an arithmetic progression of bytes
    let d = raw[1].wrapping_sub(raw[0]);
    c.check(!raw.windows(2).all(|w| w[1].wrapping_sub(w[0]) == d), "counting-secret", || hx(raw));
    let mut g = BITS.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    let e = m.entry(kind).or_insert_with(|| (0, vec![0; raw.len() * 8]));
    e.0 += 1;
    for (i, b) in raw.iter().enumerate() {
        for k in 0..8 {
            e.1[i * 8 + k] += (b >> k & 1) as u64;
        }
    }
    c.ev("fresh secrets");
    c.seen(raw);
}

pub fn c19_salts(c: &mut Case) {
    let tier = *c.rng.pick(&[None, Some("low"), Some("med"), Some("high")]);
    let mut last: Option<Vec<u8>> = None;
    for k in 0..4 {
        let s = match k {
            0 => Salter::new_with_defaults(tier),
            1 => Salter::new(tier, None, None, None, None, None),
            _ => Salter::new(tier, Some("0A"), None, None, None, None),
        }
        .must("salter");
        let raw = s.raw();
        c.check(raw.len() == 16 && s.code() == "0A", "salt-form", || format!("{} {}", s.code(), raw.len()));
        c.check(s.tier() == tier.unwrap_or("low"), "salt-tier", || s.tier());
        if raw.len() != 16 {
            return;
        }
        register(c, "salt", &raw);
        if let Some(l) = &last {
            let d: u32 = l.iter().zip(&raw).map(|(a, b)| (a ^ b).count_ones()).sum();
            c.check((16..=112).contains(&d), "related-salts", || format!("{} {}", hx(l), hx(&raw)));
        }
        let t = s.qb64().must("qb64");
        c.check(t == matter_qb64("0A", &raw), "salt-text", || t.clone());
        let r = Salter::new_with_qb64(&t, tier).must("rebuild");
        c.check(r == s, "salt-rebuild", || t.clone());
        c.check(r.signer(None, None, Some("a"), None, Some(true)).must("signer") == s.signer(None, None, Some("a"), None, Some(true)).must("signer"), "salt-rebuild-keys", || t.clone());
        last = Some(raw);
    }
}

pub fn c19_signers(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let t = *c.rng.pick(&[None, Some(true), Some(false)]);
    let mut last: Option<Vec<u8>> = None;
    for k in 0..2 {
        let s = if k == 0 { Signer::new_with_defaults(t, Some(suite)) } else { Signer::new(t, Some(suite), None, None, None, None) }.must("signer");
        let raw = s.raw();
        c.check(raw.len() == 32 && s.code() == suite, "seed-form", || format!("{} {}", s.code(), raw.len()));
        if raw.len() != 32 {
            return;
        }
        register(c, match suite { "A" => "ed25519 seed", "J" => "secp256k1 seed", _ => "secp256r1 seed" }, &raw);
        if let Some(l) = &last {
            let d: u32 = l.iter().zip(&raw).map(|(a, b)| (a ^ b).count_ones()).sum();
            c.check((56..=200).contains(&d), "related-seeds", || format!("{} {}", hx(l), hx(&raw)));
        }
        c.check(suites::valid_seed(suite, &raw), "invalid-seed", || hx(&raw));
        let v = s.verfer();
        c.check(v.code() == verfer_code(suite, t.unwrap_or(true)), "key-code", || v.code());
        c.check(Some(v.raw()) == suites::public(suite, &raw), "key", || hx(&raw));
        let text = s.qb64().must("qb64");
        c.check(text == matter_qb64(suite, &raw), "seed-text", || text.clone());
        let r = Signer::new_with_qb64(&text, t).must("rebuild");
        c.check(r == s, "rebuild", || text.clone());
        let msg = rand_msg(&mut c.rng);
        let sig = r.sign_unindexed(&msg).must("sign");
        c.check(sig.code() == sig_code(suite), "signature-code", || sig.code());
        c.check(es(v.verify(&sig.raw(), &msg)) == Ok(true), "signature", || text.clone());
        c.check(suites::verify(suite, &v.raw(), &sig.raw(), &msg) == Some(true), "signature-independent", || text.clone());
        let again = Verfer::new_with_qb64(&v.qb64().must("key text")).must("key");
        let sig2 = s.sign_unindexed(&msg).must("sign");
        c.check(es(again.verify(&sig2.raw(), &msg)) == Ok(true), "signature-rebuilt-key", || text.clone());
        if suite == "A" {
            c.check(sig == sig2, "signature-differs", || text.clone());
        }
        last = Some(raw);
    }
    if c.index % 8 == 0 {
        let d = Signer::new_with_defaults(None, None).must("signer");
        c.check(d.code() == "A" && d.verfer().code() == "D", "default-suite", || d.code());
    }
}

/// what separate processes generate first is different too
pub fn c19_processes(c: &mut Case) {
    let exe = std::env::current_exe().unwrap();
    for _ in 0..2 {
        let out = std::process::Command::new(&exe).arg("fresh").env_remove("CESR_WORKER").output().expect("child");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut n = 0;
        for l in text.lines() {
            if let Some(h) = l.strip_prefix("FRESH ") {
                let raw: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                register(c, if raw.len() == 16 { "salt of a child" } else { "seed of a child" }, &raw);
                n += 1;
            }
        }
        c.check(n == 16, "child-failed", || text);
        c.ev("processes");
    }
}

/// the child side
pub fn fresh_child() {
    let one = || {
        for s in SUITES {
            println!("FRESH {}", hx(&Signer::new_with_defaults(None, Some(s)).unwrap().raw()));
        }
        println!("FRESH {}", hx(&Salter::new_with_defaults(None).unwrap().raw()));
    };
    one();
    let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(one)).collect();
    for h in hs {
        h.join().unwrap();
    }
    one();
}

/// judged once, after everything else: every bit position takes both values equally often
pub fn c19_bits(c: &mut Case) {
    let g = BITS.lock().unwrap();
    let Some(m) = g.as_ref() else { return };
    for (kind, (n, ones)) in m.iter() {
        if *n < 200 {
            continue;
        }
        let nf = *n as f64;
        let sigma = nf.sqrt() / 2.0;
        for (i, o) in ones.iter().enumerate() {
            let z = (*o as f64 - nf / 2.0) / sigma;
            c.check(z.abs() < 8.0, &format!("biased-bit:{kind}"), || format!("bit {i} of {kind}: {o} ones of {n}"));
        }
        c.evn("bit positions judged", ones.len() as u64);
        c.seen(kind);
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "an execution is one stretching or key creation compared with Argon2id called directly at the tier's published cost and with an independent public key derivation; distinct by salt and path",
            sections: vec![sec("derive", 1_500, 60_000, c18_derive), sec("tiers", 48, 400, c18_tiers), sec_serial("high", 1, 4, c18_high), sec_serial("vectors", 1, 1, c18_vectors)],
            require: vec![("stretched", 1_000), ("signers derived", 500), ("signers in sequences", 1_000), ("tier low", 20), ("tier med", 3), ("tier high", 1), ("neighbours", 3_000), ("defaults", 50), ("published vectors", 2)],
            assumptions: vec!["the Argon2 implementation itself is trusted; costs per tier are those of libsodium, which the reference implementation uses"],
            termination: false,
        },
        Property {
            id: "C19",
            rule: "an execution is one freshly generated secret, registered against all others of the run, threads and child processes included; distinct by value",
            sections: vec![sec("salts", 1_500, 60_000, c19_salts), sec("signers", 2_400, 90_000, c19_signers), sec_serial("processes", 4, 40, c19_processes), sec_serial("bits", 1, 1, c19_bits)],
            require: vec![("fresh secrets", 9_000), ("processes", 8), ("bit positions judged", 896)],
            assumptions: vec!["statistical thresholds are set so that a sound generator fails them with probability below 1e-9"],
            termination: false,
        },
    ]
}
