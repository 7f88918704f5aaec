//! C25-C27: Base64 text, numbers and datetimes.
use crate::cesr::*;
use crate::fw::*;
use crate::p_codec::frayed;
use crate::types::{es, view};
use cesride::{Bext, Bexter, Dater, Matter, Number, Pather, Seqner};

fn text(r: &mut Rng) -> String {
    let n = match r.below(14) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4,
        5 => *r.pick(&[16379usize, 16380, 16381, 16382, 16383, 16384, 16385, 16388, 20000]),
        6 => r.range(200, 1500),
        _ => r.range(1, 60),
    };
    let mut s: Vec<u8> = (0..n).map(|_| *r.pick(&ALPHABET[..])).collect();
    match r.below(8) {
        0 => s.fill(b'A'),
        1 => s.fill(b'_'),
        2 if n > 0 => s[0] = b'A',
        3 if n > 1 => {
            s[0] = b'A';
            s[1] = b'A';
        }
        4 if n > 0 => s[n - 1] = b'A',
        5 if n > 0 => s[0] = *r.pick(&[b'-', b'_']),
        _ => {}
    }
    String::from_utf8(s).unwrap()
}

pub fn c25_bext(c: &mut Case) {
    let t = text(&mut c.rng);
    if t.len() % 4 == 0 && t.starts_with('A') {
        c.ev("documented exception skipped");
        c.seen_trivial();
        return;
    }
    let (raw, code) = bext_raw(&t);
    let code = var_code(&code, raw.len()).unwrap();
    let qb64 = bext_qb64(&t);
    let qb2 = dec(qb64.as_bytes()).unwrap();
    let what = || clip(&format!("{t:?} ({} chars)", t.len()));
    let made = c.total("bexter", what, || {
        vec![
            ("bext", es(Bexter::new_with_bext(&t))),
            ("bext 4A", es(Bexter::new(Some(&t), Some("4A"), None, None, None, None))),
            ("bext 6A", es(Bexter::new(Some(&t), Some("6A"), None, None, None, None))),
            ("raw", es(Bexter::new_with_raw(&raw, None))),
            ("raw 5A", es(Bexter::new_with_raw(&raw, Some("5A")))),
            ("qb64", es(Bexter::new_with_qb64(&qb64))),
            ("qb64b", es(Bexter::new_with_qb64b(qb64.as_bytes()))),
            ("qb2", es(Bexter::new_with_qb2(&qb2))),
        ]
    });
    for (how, b) in made.unwrap_or_default() {
        let b = match b {
            Ok(b) => b,
            Err(e) => {
                c.fail(&format!("refused:{how}"), format!("{} {e}", what()));
                continue;
            }
        };
        let got = c.total("bext", what, || es(b.bext())).unwrap_or(Err("panic".into()));
        c.check(got == Ok(t.clone()), "text", || format!("{how} {} got {}", what(), clip(&format!("{got:?}"))));
        let v = view(&b);
        c.check(v.code == code, "code", || format!("{how} {} {} want {code}", what(), v.code));
        c.check(v.raw == raw, "raw", || format!("{how} {}", what()));
        c.check(v.qb64 == Ok(qb64.clone()), "qb64", || format!("{how} {} {}", what(), clip(&format!("{:?}", v.qb64))));
        c.check(v.qb2 == Ok(qb2.clone()), "qb2", || format!("{how} {}", what()));
        c.ev("texts carried");
    }
    c.ev(&format!("code {code}"));
    c.ev(&format!("length mod 4 = {}", t.len() % 4));
    // the same text as a path: the encoded form carries it whenever it starts like a path
    let p = format!("-{t}");
    if let Some(r) = c.total("pather", || p.clone(), || es(Pather::new_with_bext(&p))) {
        let r = r.must("pather");
        c.check(es(r.bext()) == Ok(p.clone()), "path-text", || clip(&p));
        c.check(es(r.qb64()) == Ok(bext_qb64(&p)), "path-qb64", || clip(&p));
    }
    c.sample(|| format!("{t} {qb64}"));
    c.seen(&t);
}

pub fn c25_refuse(c: &mut Case) {
    let t = text(&mut c.rng);
    let bad = *c.rng.pick(&['+', '/', '=', ' ', '\n', '\0', '.', ',', '~', '@', '[', '`', '{', ':', 'é', '—', '＿', '𝄞', '\t', '\r', '\u{7f}']);
    let mut s: Vec<char> = t.chars().collect();
    let at = match c.rng.below(4) {
        0 => 0,
        1 => s.len(),
        _ => c.rng.below(s.len() + 1),
    };
    if c.rng.bool() || s.is_empty() || at == s.len() {
        s.insert(at, bad);
    } else {
        s[at] = bad;
    }
    let s: String = s.into_iter().collect();
    for code in [None, Some("4A"), Some("6A"), Some("7AAA")] {
        let r = c.total("bexter", || s.clone(), || es(Bexter::new(Some(&s), code, None, None, None, None)));
        c.check(matches!(r, Some(Err(_))), "outside-alphabet-accepted", || clip(&format!("{s:?} at {at}")));
    }
    let r = c.total("pather", || s.clone(), || es(Pather::new_with_bext(&format!("-{s}"))));
    c.check(matches!(r, Some(Err(_))), "outside-alphabet-accepted:path", || clip(&format!("{s:?}")));
    c.ev("texts refused");
    c.seen(&s);
}

/// all short texts over a small alphabet
pub fn c25_short(c: &mut Case) {
    let alpha = b"AB-_9z";
    let mut k = c.index;
    let mut s = vec![];
    for n in 0..=5usize {
        let count = 6u64.pow(n as u32);
        if k < count {
            for _ in 0..n {
                s.push(alpha[(k % 6) as usize]);
                k /= 6;
            }
            break;
        }
        k -= count;
    }
    let t = String::from_utf8(s).unwrap();
    if t.len() % 4 == 0 && t.starts_with('A') {
        c.seen_trivial();
        return;
    }
    let b = Bexter::new_with_bext(&t).must("bexter");
    c.check(es(b.bext()) == Ok(t.clone()), "text", || t.clone());
    c.check(es(b.qb64()) == Ok(bext_qb64(&t)), "qb64", || t.clone());
    c.ev("short texts enumerated");
    c.seen(&t);
}

// ---------------------------------------------------------------- C26

fn value(r: &mut Rng) -> u128 {
    let edges = [8u32, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127];
    match r.below(6) {
        0 => {
            let e = 1u128 << r.pick(&edges);
            match r.below(3) {
                0 => e - 1,
                1 => e,
                _ => e + 1,
            }
        }
        1 => *r.pick(&[0u128, 1, 2, 9, 10, 15, 16, 255, 256, u128::MAX, u128::MAX - 1, i128::MAX as u128]),
        2 => {
            // bytes all set or all clear, some of them odd
            let mut b = [0u8; 16];
            for x in b.iter_mut() {
                *x = *r.pick(&[0, 0, 0xff, 0xff, 0x80, 0x7f, 1]);
            }
            u128::from_be_bytes(b) >> (8 * r.below(16))
        }
        _ => r.u128() >> r.below(128),
    }
}

fn number_code(n: u128) -> (&'static str, usize) {
    if n < 1 << 16 {
        ("M", 2)
    } else if n < 1 << 32 {
        ("0H", 4)
    } else if n < 1 << 64 {
        ("N", 8)
    } else {
        ("0A", 16)
    }
}

pub fn c26_value(c: &mut Case) {
    let n = value(&mut c.rng);
    let (code, len) = number_code(n);
    let be = n.to_be_bytes();
    let raw = be[16 - len..].to_vec();
    let qb64 = matter_qb64(code, &raw);
    let qb2 = dec(qb64.as_bytes()).unwrap();
    let hex = match c.rng.below(4) {
        0 => format!("{n:x}"),
        1 => format!("{n:X}"),
        2 => format!("{n:032x}"),
        _ => format!("{}{n:x}", "0".repeat(c.rng.below(50))),
    };
    let what = format!("{n} ({hex})");
    let other = *c.rng.pick(&["M", "0H", "N", "0A"]);
    let made = c
        .total("number", || what.clone(), || {
            vec![
                ("num", es(Number::new_with_num(n))),
                ("numh", es(Number::new_with_numh(&hex))),
                ("num wins", es(Number::new(Some(n), Some("1"), None, None, None, None, None))),
                ("num with code", es(Number::new(Some(n), None, Some(code), None, None, None, None))),
                ("num with another code", es(Number::new(Some(n), None, Some(other), None, None, None, None))),
                ("numh with another code", es(Number::new(None, Some(&hex), Some(other), None, None, None, None))),
                ("raw", es(Number::new_with_raw(&raw, Some(code)))),
                ("qb64", es(Number::new_with_qb64(&qb64))),
                ("qb64b", es(Number::new_with_qb64b(qb64.as_bytes()))),
                ("qb2", es(Number::new_with_qb2(&qb2))),
            ]
        })
        .unwrap_or_default();
    for (how, x) in made {
        let x = match x {
            Ok(x) => x,
            Err(e) => {
                c.fail(&format!("refused:number:{how}"), format!("{what} {e}"));
                continue;
            }
        };
        c.check(es(x.num()) == Ok(n), "num", || format!("{how} {what} {:?}", x.num()));
        c.check(es(x.numh()) == Ok(format!("{n:x}")), "numh", || format!("{how} {what} {:?}", x.numh()));
        c.check(es(x.positive()) == Ok(n > 0), "positive", || format!("{how} {what}"));
        let v = view(&x);
        c.check(v.code == code, "code", || format!("{how} {what} {}", v.code));
        c.check(v.raw == raw, "raw", || format!("{how} {what} {:?}", v.raw));
        c.check(v.qb64 == Ok(qb64.clone()), "qb64", || format!("{how} {what} {:?}", v.qb64));
        c.check(v.qb2 == Ok(qb2.clone()), "qb2", || format!("{how} {what}"));
        c.ev("numbers carried");
    }
    c.ev(&format!("number code {code}"));
    // nothing given at all is zero; an empty sequence number is refused
    if n % 16 == 0 {
        let zero = matter_qb64("M", &[0, 0]);
        for (how, x) in [
            ("nothing", es(Number::new(None, None, None, None, None, None, None))),
            ("nothing but a code", es(Number::new(None, None, Some(code), None, None, None, None))),
            ("empty hex", es(Number::new_with_numh(""))),
        ] {
            c.check(x.as_ref().map(|x| (es(x.num()), es(x.qb64()))) == Ok((Ok(0), Ok(zero.clone()))), "default-number", || format!("{how} {x:?}"));
        }
        let zero = matter_qb64("0A", &[0; 16]);
        let x = es(Seqner::new(None, None, None, None, None, None, None));
        c.check(x.as_ref().map(|x| (es(x.sn()), es(x.qb64()))) == Ok((Ok(0), Ok(zero.clone()))), "default-seqner", || format!("{x:?}"));
        c.check(Seqner::new_with_snh("").is_err(), "bad-hex-accepted:seqner", || "empty".to_string());
        c.ev("defaults");
    }
    // a wider code carries the same value
    for (wide, wlen) in [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)] {
        if wlen >= len {
            let w = be[16 - wlen..].to_vec();
            let x = Number::new_with_qb64(&matter_qb64(wide, &w)).must("number");
            c.check(es(x.num()) == Ok(n) && x.code() == wide, "wide", || format!("{wide} {what} {:?}", x.num()));
        }
    }
    // sequence numbers
    let qb64 = matter_qb64("0A", &be);
    let qb2 = dec(qb64.as_bytes()).unwrap();
    let made = c
        .total("seqner", || what.clone(), || {
            vec![
                ("sn", es(Seqner::new_with_sn(n))),
                ("snh", es(Seqner::new_with_snh(&hex))),
                ("sn wins", es(Seqner::new(Some(n), Some("1"), None, None, None, None, None))),
                ("raw", es(Seqner::new_with_raw(&be, Some("0A")))),
                ("raw-default", es(Seqner::new_with_raw(&be, None))),
                ("qb64", es(Seqner::new_with_qb64(&qb64))),
                ("qb64b", es(Seqner::new_with_qb64b(qb64.as_bytes()))),
                ("qb2", es(Seqner::new_with_qb2(&qb2))),
            ]
        })
        .unwrap_or_default();
    for (how, x) in made {
        let x = match x {
            Ok(x) => x,
            Err(e) => {
                c.fail(&format!("refused:seqner:{how}"), format!("{what} {e}"));
                continue;
            }
        };
        c.check(es(x.sn()) == Ok(n), "sn", || format!("{how} {what} {:?}", x.sn()));
        c.check(es(x.snh()) == Ok(format!("{n:x}")), "snh", || format!("{how} {what} {:?}", x.snh()));
        let v = view(&x);
        c.check(v.code == "0A" && v.raw == be && v.qb64 == Ok(qb64.clone()) && v.qb2 == Ok(qb2.clone()), "seqner-form", || format!("{how} {what} {v:?}"));
        c.ev("sequence numbers carried");
    }
    c.sample(|| format!("{n} {qb64}"));
    c.seen(&n);
}

pub fn c26_refuse(c: &mut Case) {
    let n = value(&mut c.rng);
    let good = format!("{n:x}");
    let bad = match c.rng.below(11) {
        7 => frayed(&mut c.rng, &good),
        8 => c.rng.pick(&[" ", "\t", "\n", "  ", "\0", "\u{a0}", "0x", "_", "\"\"", "0 0", "-0", "+0"]).to_string(),
        0 => format!("{}{:032x}", c.rng.range(1, 15), n), // 129 bits or more
        1 => "1".to_string() + &"0".repeat(32 + c.rng.below(20)),
        2 => format!("0x{good}"),
        3 => format!("{}{good}", c.rng.pick(&["-", "+"])),
        4 => format!(" {good}"),
        5 => format!("{good} "),
        6 => {
            let mut s: Vec<char> = good.chars().collect();
            let at = c.rng.below(s.len());
            s[at] = *c.rng.pick(&['g', 'G', 'z', '_', '.', '/', ':', '@', '`', 'é', '٣', '１', '\0']);
            s.into_iter().collect()
        }
        9 => format!("{good}h"),
        _ => c.rng.pick(&["f".repeat(33), "x".into(), "-".into(), "+".into(), "1 2".into(), "1_0".into(), "1,0".into(), "1.0".into(), "ｆ".into()]).clone(),
    };
    if bad.bytes().all(|b| b.is_ascii_hexdigit()) && bad.trim_start_matches('0').len() <= 32 {
        return c.seen_trivial(); // still a number
    }
    let r = c.total("number", || bad.clone(), || es(Number::new_with_numh(&bad).and_then(|x| x.num())));
    c.check(matches!(r, Some(Err(_))), "bad-hex-accepted:number", || format!("{bad:?} {r:?}"));
    let r = c.total("seqner", || bad.clone(), || es(Seqner::new_with_snh(&bad).and_then(|x| x.sn())));
    c.check(matches!(r, Some(Err(_))), "bad-hex-accepted:seqner", || format!("{bad:?} {r:?}"));
    // raw material too short for its code
    for (code, len) in [("M", 2usize), ("0H", 4), ("N", 8), ("0A", 16)] {
        let k = c.rng.below(len);
        let raw = c.rng.raw(k);
        let r = c.total("number", || format!("{code} {raw:?}"), || es(Number::new_with_raw(&raw, Some(code)).and_then(|x| x.num())));
        c.check(matches!(r, Some(Err(_))), "short-raw-accepted", || format!("{code} {raw:?} {r:?}"));
    }
    c.ev("numbers refused");
    c.seen(&bad);
}

pub fn c26_small(c: &mut Case) {
    let n = c.index as u128;
    let x = Number::new_with_num(n).must("number");
    c.check(es(x.num()) == Ok(n) && x.code() == number_code(n).0 && es(x.positive()) == Ok(n > 0), "small", || format!("{n} {:?}", x));
    let y = Number::new_with_numh(&format!("{n:x}")).must("number");
    c.check(x == y, "small", || format!("{n}"));
    let s = Seqner::new_with_sn(n).must("seqner");
    c.check(es(s.sn()) == Ok(n) && es(s.snh()) == es(x.numh()), "small", || format!("{n}"));
    c.ev("small numbers enumerated");
    c.seen(&n);
}

// ---------------------------------------------------------------- C27

fn b64_of(dts: &str) -> String {
    dts.chars()
        .map(|x| match x {
            ':' => 'c',
            '.' => 'd',
            '+' => 'p',
            x => x,
        })
        .collect()
}

fn leap(y: usize) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn datetime(r: &mut Rng) -> String {
    let y = match r.below(4) {
        0 => *r.pick(&[0usize, 1, 1969, 1970, 1999, 2000, 2038, 2100, 9999]),
        _ => r.below(10_000),
    };
    let m = r.range(1, 12);
    let last = match m {
        2 => 28 + leap(y) as usize,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let d = if r.chance(1, 5) { last } else { r.range(1, last) };
    let us = match r.below(4) {
        0 => 0,
        1 => 999_999,
        _ => r.below(1_000_000),
    };
    let sec = if r.chance(1, 30) { 60 } else { r.below(60) };
    format!(
        "{y:04}-{m:02}-{d:02}{}{:02}:{:02}:{sec:02}.{us:06}{}{:02}:{:02}",
        if r.chance(1, 12) { 't' } else { 'T' }, r.below(24), r.below(60), if r.bool() { '+' } else { '-' }, r.below(15), *r.pick(&[0usize, 15, 30, 45, 59])
    )
}

pub fn c27_valid(c: &mut Case) {
    let d = datetime(&mut c.rng);
    assert_eq!(d.len(), 32);
    let qb64 = format!("1AAG{}", b64_of(&d));
    let qb2 = dec(qb64.as_bytes()).unwrap();
    let raw = qb2[3..].to_vec();
    let made = c
        .total("dater", || d.clone(), || {
            vec![
                ("dts", es(Dater::new_with_dts(&d, None))),
                ("dts with code", es(Dater::new_with_dts(&d, Some("1AAG")))),
                ("new", es(Dater::new(Some(&d), None, None, None, None, None))),
                ("raw", es(Dater::new_with_raw(&raw, Some("1AAG")))),
                ("raw-default", es(Dater::new_with_raw(&raw, None))),
                ("qb64", es(Dater::new_with_qb64(&qb64))),
                ("qb64b", es(Dater::new_with_qb64b(qb64.as_bytes()))),
                ("qb2", es(Dater::new_with_qb2(&qb2))),
            ]
        })
        .unwrap_or_default();
    for (how, x) in made {
        let x = match x {
            Ok(x) => x,
            Err(e) => {
                c.fail(&format!("refused:{how}"), format!("{d} {e}"));
                continue;
            }
        };
        c.check(es(x.dts()) == Ok(d.clone()), "dts", || format!("{how} {d} {:?}", x.dts()));
        c.check(es(x.dtsb()) == Ok(d.clone().into_bytes()), "dtsb", || format!("{how} {d}"));
        let v = view(&x);
        c.check(v.code == "1AAG" && v.raw == raw, "raw", || format!("{how} {d} {v:?}"));
        c.check(v.qb64 == Ok(qb64.clone()) && v.qb2 == Ok(qb2.clone()), "encoded", || format!("{how} {d} {:?}", v.qb64));
        c.check(v.full == Ok(36), "full-size", || format!("{how} {d}"));
        c.ev("datetimes carried");
    }
    c.sample(|| format!("{d} {qb64}"));
    c.seen(&d);
}

pub fn c27_malformed(c: &mut Case) {
    let d = datetime(&mut c.rng);
    let bad = match c.rng.below(8) {
        0 => d[..c.rng.below(32)].to_string(),
        1 => {
            let mut s = d.clone();
            let k = c.rng.below(33);
            s.insert(k, *c.rng.pick(&['0', '9', ':', '-', 'Z', ' ']));
            s
        }
        2 => format!("{}Z", &d[..26]),
        3 => format!("{d}{}", datetime(&mut c.rng)),
        4 => {
            let mut s: Vec<char> = d.chars().collect();
            let k = c.rng.below(32);
            s[k] = *c.rng.pick(&[' ', '/', ',', '=', '~', '\n', '\0', '@', '(', '𝄞', 'é', '０']);
            s.into_iter().collect()
        }
        5 => {
            // nanoseconds, or none
            format!("{}{}", &d[..19], if c.rng.bool() { "+00:00".into() } else { format!(".{:09}+00:00", c.rng.below(1_000_000_000)) })
        }
        6 => c.rng.pick(&["", "now", "2020-08-22", "2020-08-22T17:50:09Z", "é", "2020-08-22T17:50:09.988921+00:0é", "2020-08-22T17:50:09.988921+00:é"]).to_string(),
        _ => d.replace(['T', 't'], " "),
    };
    let r = c.total("dater", || bad.clone(), || es(Dater::new_with_dts(&bad, None).map(|x| x.dts().ok())));
    c.check(matches!(r, Some(Err(_))), "malformed-accepted", || format!("{bad:?} {r:?}"));
    // other codes
    let code = *c.rng.pick(&["1AAF", "A", "E", "0A", "4A", "1AAZ", "", "zzzz"]);
    let r = c.total("dater", || code.into(), || es(Dater::new_with_raw(&[7; 24], Some(code))));
    c.check(matches!(r, Some(Err(_))), "foreign-code-accepted", || code.into());
    // truncated encodings
    let q = format!("1AAG{}", b64_of(&d));
    let k = c.rng.below(36);
    let r = c.total("dater", || q[..k].into(), || es(Dater::new_with_qb64(&q[..k])));
    c.check(matches!(r, Some(Err(_))), "truncated-accepted", || q[..k].into());
    let q2 = dec(q.as_bytes()).unwrap();
    let k = c.rng.below(27);
    let r = c.total("dater", || format!("{k}"), || es(Dater::new_with_qb2(&q2[..k])));
    c.check(matches!(r, Some(Err(_))), "truncated-accepted:qb2", || format!("{k}"));
    c.ev("datetimes refused");
    c.seen(&bad);
}

/// days since 1970-01-01 of a civil date
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

fn instant(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() != 32 || !s.is_ascii() {
        return None;
    }
    for (i, x) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':'), (19, b'.'), (29, b':')] {
        if b[i] != x {
            return None;
        }
    }
    let n = |a: usize, z: usize| -> Option<i64> { s[a..z].bytes().all(|x| x.is_ascii_digit()).then(|| s[a..z].parse().unwrap()) };
    let sign = match b[26] {
        b'+' => 1,
        b'-' => -1,
        _ => return None,
    };
    let off = sign * (n(27, 29)? * 3600 + n(30, 32)? * 60);
    let t = days(n(0, 4)?, n(5, 7)?, n(8, 10)?) * 86_400 + n(11, 13)? * 3600 + n(14, 16)? * 60 + n(17, 19)? - off;
    Some(t * 1_000_000 + n(20, 26)?)
}

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros() as i64
}

pub fn c27_now(c: &mut Case) {
    if c.rng.chance(1, 4) {
        std::thread::sleep(std::time::Duration::from_micros(c.rng.below(3000) as u64));
    }
    let before = now();
    let x = Dater::new(None, None, None, None, None, None).must("dater");
    let after = now();
    let s = x.dts().must("dts");
    c.check(s.ends_with("+00:00"), "not-utc", || s.clone());
    match instant(&s) {
        Some(t) => {
            // a millisecond of slack for a clock that is stepped
            c.check(t + 1000 >= before && t <= after + 1000, "not-now", || format!("{s} = {t}, between {before} and {after}"));
        }
        None => c.fail("not-iso", s.clone()),
    }
    let r = Dater::new_with_dts(&s, None).must("rebuild");
    c.check(r == x, "rebuild", || s.clone());
    c.ev("current instants");
    c.seen(&s);
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C25",
            rule: "an execution is one text carried through eight construction routes and compared with the reference layout, or one text outside the alphabet; distinct by text",
            sections: vec![sec("bext", 60_000, 300_000, c25_bext), sec("refuse", 40_000, 200_000, c25_refuse), sec("short", 9_331, 9_331, c25_short)],
            require: vec![("texts carried", 30_000), ("texts refused", 3_000), ("short texts enumerated", 8_000), ("code 4A", 500), ("code 5A", 500), ("code 6A", 500), ("code 7AAA", 20), ("code 8AAA", 20), ("code 9AAA", 20)],
            assumptions: vec![],
            termination: false,
        },
        Property {
            id: "C26",
            rule: "an execution is one value carried through every route of numbers and sequence numbers, or one refused text; distinct by value",
            sections: vec![sec("value", 160_000, 400_000, c26_value), sec("refuse", 100_000, 200_000, c26_refuse), sec("small", 70_000, 200_000, c26_small)],
            require: vec![("numbers carried", 50_000), ("sequence numbers carried", 50_000), ("numbers refused", 4_000), ("number code M", 500), ("number code 0H", 500), ("number code N", 500), ("number code 0A", 500), ("small numbers enumerated", 70_000)],
            assumptions: vec![],
            termination: false,
        },
        Property {
            id: "C27",
            rule: "an execution is one datetime through every route, one refused text, or one current instant compared with the system clock; distinct by text",
            sections: vec![sec("valid", 90_000, 300_000, c27_valid), sec("malformed", 90_000, 300_000, c27_malformed), sec("now", 45_000, 60_000, c27_now)],
            require: vec![("datetimes carried", 40_000), ("datetimes refused", 5_000), ("current instants", 2_500)],
            assumptions: vec!["the system clock is not stepped by more than a millisecond during the run"],
            termination: false,
        },
    ]
}
