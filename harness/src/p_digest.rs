//! C12: digests.
use crate::cesr::{self, *};
use crate::fw::*;
use crate::types::es;
use cesride::{Diger, Matter};

pub const DIGEST_CODES: [&str; 9] = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];

/// the named algorithm, called directly
pub fn hash(code: &str, d: &[u8]) -> Vec<u8> {
    use blake2::Digest as _;
    match code {
        "E" => blake3::hash(d).as_bytes().to_vec(),
        "0D" => {
            let mut out = [0u8; 64];
            let mut h = blake3::Hasher::new();
            h.update(d);
            h.finalize_xof().fill(&mut out);
            out.to_vec()
        }
        "F" => {
            type B = blake2::Blake2b<blake2::digest::consts::U32>;
            B::digest(d).to_vec()
        }
        "0E" => blake2::Blake2b512::digest(d).to_vec(),
        "G" => blake2::Blake2s256::digest(d).to_vec(),
        "H" => sha3::Sha3_256::digest(d).to_vec(),
        "0F" => sha3::Sha3_512::digest(d).to_vec(),
        "I" => sha2::Sha256::digest(d).to_vec(),
        "0G" => sha2::Sha512::digest(d).to_vec(),
        _ => panic!("code {code}"),
    }
}

fn hx(b: &[u8]) -> String {
    b.iter().take(200).map(|x| format!("{x:02x}")).collect()
}

fn content(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => *r.pick(&[0, 1, 2, 3]),
        1 => *r.pick(&[55, 56, 63, 64, 65, 71, 72, 73, 103, 104, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 145]),
        2 => *r.pick(&[255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193]),
        3 if r.chance(1, 10) => r.range(60_000, 140_000),
        _ => r.range(0, 700),
    };
    r.raw(n)
}

fn flip(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut m = d.to_vec();
    match r.below(7) {
        5 | 6 => {
            m = r.tidied(d);
            if m == d {
                m.push(b'\n');
            }
        }
        0 => m.push(0),
        1 => m.insert(0, 0),
        2 if !m.is_empty() => {
            m.pop();
        }
        _ if !m.is_empty() => {
            let i = r.below(m.len() * 8);
            m[i / 8] ^= 1 << (i % 8);
        }
        _ => m.push(1),
    }
    m
}

pub fn c12_digest(c: &mut Case) {
    let code = DIGEST_CODES[c.index as usize % 9];
    let data = content(&mut c.rng);
    let want = hash(code, &data);
    let d = Diger::new_with_ser(&data, Some(code)).must("diger");
    let ctx = format!("{code} content[{}] {}", data.len(), hx(&data));
    c.check(d.raw() == want, "digest", || format!("{ctx} got {} want {}", hx(&d.raw()), hx(&want)));
    c.eq("code", d.code(), code.to_string());
    let text = cesr::matter_qb64(code, &want);
    c.eq("text", es(d.qb64()), Ok(text.clone()));
    c.check(es(Diger::new_with_ser(&data, None)).map(|x| (x.code(), x.raw())) == Ok(("E".into(), hash("E", &data))), "default-algorithm", || ctx.clone());
    // digests given as material
    for (n, x) in [
        ("text", es(Diger::new_with_qb64(&text))),
        ("bytes", es(Diger::new_with_qb64b(text.as_bytes()))),
        ("bin", es(Diger::new_with_qb2(&dec(text.as_bytes()).unwrap()))),
        ("raw", es(Diger::new_with_raw(&want, Some(code)))),
        ("own", Ok(d.clone())),
    ] {
        let x = x.must("material");
        c.check(es(x.verify(&data)) == Ok(true), &format!("own-content-refused:{n}"), || ctx.clone());
        c.ev("verified true");
        for _ in 0..2 {
            let m = flip(&mut c.rng, &data);
            c.check(es(x.verify(&m)) == Ok(false), &format!("changed-content-accepted:{n}"), || format!("{ctx} changed {}", hx(&m)));
            c.ev("verified false");
        }
    }
    // changed digest
    for _ in 0..3 {
        let mut w = want.clone();
        let i = c.rng.below(w.len() * 8);
        w[i / 8] ^= 1 << (i % 8);
        let x = Diger::new_with_raw(&w, Some(code)).must("raw");
        c.check(es(x.verify(&data)) == Ok(false), "changed-digest-accepted", || format!("{ctx} bit {i}"));
        c.ev("verified false");
    }
    // the bytes of one algorithm's digest under another code of that size
    for o in DIGEST_CODES {
        if o != code && mcode(o).unwrap().raw == Some(want.len()) {
            let x = Diger::new_with_raw(&want, Some(o)).must("raw");
            c.check(es(x.verify(&data)) == Ok(false), "other-algorithm-accepted", || format!("{ctx} as {o}"));
            c.ev("verified false");
        }
    }
    c.check(d.raw() == want, "verify-changed-digest", String::new);
    c.sample(|| format!("{ctx} -> {text}"));
    c.seen(&(code, &data));
}

pub fn c12_compare(c: &mut Case) {
    let a = DIGEST_CODES[c.index as usize % 9];
    let b = DIGEST_CODES[c.index as usize / 9 % 9];
    let data = content(&mut c.rng);
    let other = flip(&mut c.rng, &data);
    let good = |code: &str| Diger::new_with_ser(&data, Some(code)).must("diger");
    let wrong = |code: &str| Diger::new_with_ser(&other, Some(code)).must("diger");
    for (x, xok) in [(good(a), true), (wrong(a), false)] {
        for (y, yok) in [(good(b), true), (wrong(b), false)] {
            for (ser, for_data) in [(&data, true), (&other, false)] {
                let same = x.code() == y.code() && x.raw() == y.raw();
                let want = same || (a != b && xok == for_data && yok == for_data);
                let t = y.qb64b().must("qb64b");
                for (n, r) in [
                    ("value", es(x.compare(ser, None, Some(&y)))),
                    ("text", es(x.compare(ser, Some(&t), None))),
                    ("both", es(x.compare(ser, Some(&t), Some(&x)))),
                ] {
                    c.check(r == Ok(want), &format!("compare:{n}"), || format!("{a}({xok}) {b}({yok}) content {for_data} got {r:?} want {want}"));
                    c.ev(if want { "equal" } else { "unequal" });
                }
                c.seen(&(a, b, xok, yok, ser));
            }
        }
    }
    c.check(good(a).compare(&data, None, None).is_err(), "compare-nothing", String::new);
    for bad in ["", "E", "not a digest", "DAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "0AAAAAAAAAAAAAAAAAAAAAAA"] {
        let r = c.total("compare", || bad.to_string(), || good(a).compare(&data, Some(bad.as_bytes()), None));
        c.check(!matches!(r, Some(Ok(true))), "compare-non-digest", || bad.to_string());
        c.ev("non-digest refused");
    }
}

/// content of every length
pub fn c12_lengths(c: &mut Case) {
    let n = if c.index < 4400 {
        c.index as usize
    } else if c.index < 4427 {
        // around the powers of two, to a megabyte
        let k = c.index as usize - 4400;
        (1usize << (12 + k / 3)) + k % 3 - 1
    } else { c.rng.range(4400, 300_000) / 8 * 8 };
    let data = c.rng.raw(n);
    for code in DIGEST_CODES {
        let want = hash(code, &data);
        let d = Diger::new_with_ser(&data, Some(code)).must("diger");
        c.check(d.raw() == want, "digest", || format!("{code} content[{n}] got {} want {}", hx(&d.raw()), hx(&want)));
        c.check(es(d.verify(&data)) == Ok(true), "own-content-refused:length", || format!("{code} content[{n}]"));
        if n > 0 {
            let mut m = data.clone();
            let i = c.rng.below(m.len() * 8);
            m[i / 8] ^= 1 << (i % 8);
            c.check(es(d.verify(&m)) == Ok(false), "changed-content-accepted:length", || format!("{code} content[{n}] bit {i}"));
        }
        c.ev("verified true");
        c.ev("verified false");
    }
    c.ev("lengths");
    c.seen(&n);
}

/// digest text that is nearly the digest's own
pub fn c12_near(c: &mut Case) {
    let code = DIGEST_CODES[c.index as usize % 9];
    let data = content(&mut c.rng);
    let d = Diger::new_with_ser(&data, Some(code)).must("diger");
    let t = d.qb64().must("text");
    let flip_case = |x: char| if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
    let k = c.rng.range(code.len(), t.len() - 1);
    let mut one: Vec<char> = t.chars().collect();
    one[k] = flip_case(one[k]);
    let mut swapped: Vec<char> = t.chars().collect();
    swapped.swap(k, k - 1);
    let mut near = vec![
        ("case", one.into_iter().collect::<String>()),
        ("all-case", code.to_string() + &t[code.len()..].chars().map(flip_case).collect::<String>()),
        ("upper", code.to_string() + &t[code.len()..].to_ascii_uppercase()),
        ("swapped", swapped.into_iter().collect()),
        ("standard-base64", t.replace('-', "+").replace('_', "/")),
        ("leading-space", format!(" {t}")),
        ("quoted", format!("\"{t}\"")),
        ("first-half", t[..t.len() / 2].to_string()),
        ("less-one", t[..t.len() - 1].to_string()),
        ("longer", t.clone() + c.rng.pick(&["A", "AAAA", "=", " ", "\n", "\0", "-AAB"])),
        ("twice", t.clone() + &t),
    ];
    near.retain(|(_, x)| *x != t);
    for (n, x) in near {
        let r = c.total("compare", || x.clone(), || es(d.compare(&data, Some(x.as_bytes()), None)));
        c.check(!matches!(r, Some(Ok(true))), &format!("near-text-equal:{n}"), || format!("{t} / {x}"));
        if n == "case" || n == "all-case" || n == "upper" || n == "swapped" {
            if let Ok(y) = es(Diger::new_with_qb64(&x)) {
                c.check(es(d.compare(&data, None, Some(&y))) == Ok(false), &format!("near-value-equal:{n}"), || format!("{t} / {x}"));
                c.check(es(y.verify(&data)) == Ok(false), "changed-digest-accepted", || format!("{t} / {x}"));
            }
        }
        c.ev("near texts");
    }
    c.seen(&t);
}

pub fn c12_vectors(c: &mut Case) {
    let (code, n, hexd) = crate::vectors::VECTORS[c.index as usize % crate::vectors::VECTORS.len()];
    let data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let d = Diger::new_with_ser(&data, Some(code)).must("diger");
    c.eq("published-vector", hx(&d.raw()), hexd.to_string());
    c.eq("oracle-vector", hx(&hash(code, &data)), hexd.to_string());
    c.ev("vectors");
    c.seen(&(code, n));
}

pub fn c12_unknown(c: &mut Case) {
    let codes = ["A", "B", "C", "D", "J", "K", "L", "M", "N", "0A", "0B", "0C", "0H", "0I", "1AAA", "1AAG", "4A", "5A", "6A", "", "Z", "EE", "e"];
    let code = codes[c.index as usize % codes.len()];
    let n = c.rng.below(100);
    let d = c.rng.raw(n);
    let r = c.total("diger", || code.to_string(), || Diger::new_with_ser(&d, Some(code)));
    c.check(!matches!(r, Some(Ok(_))), "non-digest-code", || code.to_string());
    c.ev("unknown code refused");
    c.seen(&(code, d));
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C12",
        rule: "an execution is one content digested and verified, or one pair of digests compared against one content; distinct by (code, content) and (codes, correctness, content)",
        sections: vec![sec("digest", 72_000, 300_000, c12_digest), sec("compare", 12_960, 81_000, c12_compare), sec("lengths", 5_000, 60_000, c12_lengths), sec("near", 9_000, 90_000, c12_near), sec("vectors", 50, 50, c12_vectors), sec("unknown", 230, 2_300, c12_unknown)],
        require: vec![("verified true", 20_000), ("verified false", 50_000), ("equal", 3_000), ("unequal", 10_000), ("vectors", 50), ("lengths", 4_400), ("near texts", 50_000)],
        assumptions: vec!["the digest crates called directly implement the algorithms, pinned by vectors from Python hashlib"],
        termination: false,
    }]
}
