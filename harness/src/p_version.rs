//! C28: version strings, sniffing, sizing.
use crate::fw::*;
use crate::jsn::{self, build, dump};
use crate::types::es;
use cesride::common::{deversify, sizeify, sniff, versify, Version};
use serde_json::{json, Map, Value as J};

const IDENTS: [&str; 2] = ["KERI", "ACDC"];

fn size(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 9, 10, 15, 16, 17, 255, 256, 4095, 4096, 65535, 65536, 0x0f_ffff, 0x10_0000, 0xff_fffe, 0xff_ffff, 0xab_cdef, 0xfe_dcba, 0xa0_0000, 0x00_000a]),
        1 => 1 << r.below(24),
        2 => r.below(4096) as u32,
        _ => r.below(1 << 24) as u32,
    }
}

fn reference(ident: &str, major: u8, minor: u8, size: u32) -> String {
    let hex = b"0123456789abcdef";
    let mut s = ident.to_string();
    s.push(hex[major as usize] as char);
    s.push(hex[minor as usize] as char);
    s.push_str("JSON");
    for k in (0..6).rev() {
        s.push(hex[((size >> (4 * k)) & 15) as usize] as char);
    }
    s.push('_');
    s
}

pub fn c28_round(c: &mut Case) {
    // the first cases go over every protocol and version, with every power of two as size
    let n = c.index as usize;
    let (ident, major, minor) = if n < 512 { (IDENTS[n % 2], (n / 2 % 16) as u8, (n / 32) as u8) } else { (*c.rng.pick(&IDENTS), c.rng.below(16) as u8, c.rng.below(16) as u8) };
    let mut sizes: Vec<u32> = (0..6).map(|_| size(&mut c.rng)).collect();
    if n % 16 == 0 {
        sizes.extend((0..24).map(|k| 1u32 << k));
        sizes.extend((1..=24).map(|k| (1u32 << k) - 1));
    }
    for sz in sizes {
        let want = reference(ident, major, minor, sz);
        let version = Version { major, minor };
        let got = es(versify(Some(ident), Some(&version), Some("JSON"), Some(sz)));
        c.check(got.as_deref() == Ok(&want), "version-string", || format!("got {got:?} want {want}"));
        c.check(got.as_ref().map(|s| s.len()).unwrap_or(17) == 17, "length", || format!("{got:?}"));
        let d = es(deversify(&want));
        c.check(
            d.as_ref().map(|d| (d.ident.as_str(), d.version.major, d.version.minor, d.kind.as_str(), d.size)) == Ok((ident, major, minor, "JSON", sz)),
            "parsed",
            || format!("{want} {d:?}"),
        );
        c.ev("version strings");
        c.seen(&want);
        // found wherever it may start
        for start in [c.rng.below(13), 12, 0] {
            let mut raw: Vec<u8> = filler(&mut c.rng, start);
            raw.extend(want.bytes());
            let tail = c.rng.below(40).max(12usize.saturating_sub(start));
            let tail = c.rng.bytes(tail);
            raw.extend(&tail);
            check_sniff(c, &raw);
        }
    }
    if n == 0 {
        let d = es(versify(None, None, None, None));
        c.check(d.as_deref() == Ok("KERI10JSON000000_"), "defaults", || format!("{d:?}"));
        for (i, k) in [("CESR", "JSON"), ("keri", "JSON"), ("KERI", "CBOR"), ("KERI", "json"), ("", "JSON"), ("KERI", ""), ("KERI ", "JSON"), ("ACDC", "MGPK"), (" KERI", "JSON"), ("KERI", " JSON"), ("KERI", "JSON "), ("KERI", "JSON\n"), ("ACDC", "\u{feff}JSON"), ("ACDC\0", "JSON"), ("Keri", "JSON"), ("KERI", "Json"), ("KER", "JSON"), ("KERI", "JSO"), ("KERIKERI", "JSON"), ("KERI", "JSONJSON"), ("KERI10", "JSON")] {
            let d = c.total("versify", || format!("{i} {k}"), || es(versify(Some(i), None, Some(k), None)));
            c.check(matches!(d, Some(Err(_))), "unknown-protocol-or-kind", || format!("{i:?} {k:?} {d:?}"));
            c.ev("refused");
        }
    }
    c.sample(|| reference(ident, major, minor, 0));
}

/// bytes in which no version string can start
fn filler(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| *r.pick(b"{\"v:, abxyz\x00\x7f[0")).collect()
}

fn layout(b: &[u8]) -> bool {
    let hex = |c: u8| c.is_ascii_digit() || (b'a'..=b'f').contains(&c);
    b.len() == 17
        && b[..4].iter().all(|c| c.is_ascii_uppercase())
        && hex(b[4])
        && hex(b[5])
        && b[6..10].iter().all(|c| c.is_ascii_uppercase())
        && b[10..16].iter().all(|c| hex(*c))
        && b[16] == b'_'
}

fn hexv(b: &[u8]) -> u32 {
    b.iter().fold(0, |a, c| a * 16 + (*c as char).to_digit(16).unwrap())
}

fn check_sniff(c: &mut Case, raw: &[u8]) {
    let show = || clip(&format!("{:?}", String::from_utf8_lossy(&raw[..raw.len().min(80)])));
    let got = match c.total("sniff", show, || es(sniff(raw))) {
        Some(g) => g,
        None => return,
    };
    let at = raw.windows(17).position(layout);
    let fits = raw.len() >= 29 && at.map(|a| a <= 12).unwrap_or(false);
    match (fits, &got) {
        (false, Ok(g)) => c.fail("sniffed-nothing", format!("{g:?} {} at {at:?} length {}", show(), raw.len())),
        (false, Err(_)) => c.ev("sniff refused"),
        (true, g) => {
            let b = &raw[at.unwrap()..at.unwrap() + 17];
            let json = &b[6..10] == b"JSON";
            let known = IDENTS.iter().any(|i| i.as_bytes() == &b[..4]);
            match g {
                Err(e) => {
                    c.check(!json || !known, "sniff-refused", || format!("{e} {} at {at:?}", show()));
                    c.ev("sniff refused");
                }
                Ok(g) => {
                    c.check(json, "sniffed-unknown-kind", || format!("{g:?} {}", show()));
                    let want = (String::from_utf8_lossy(&b[..4]).to_string(), hexv(&b[4..5]) as u8, hexv(&b[5..6]) as u8, "JSON", hexv(&b[10..16]));
                    c.check((g.ident.clone(), g.version.major, g.version.minor, g.kind.as_str(), g.size) == want, "sniffed-wrong", || format!("{g:?} want {want:?} {}", show()));
                    c.ev("sniffed");
                }
            }
        }
    }
}

const HOSTILE: &[char] = &['0', '9', 'a', 'f', 'g', 'A', 'F', 'G', 'Z', '_', '-', ' ', '\n', '\0', 'é', '٣', 'Ａ', 'J', 'S', 'O', 'N', 'K', '+', '$', '1', '#', '"', '.', '\\', '\u{17f}', '\u{212a}'];

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        match r.below(9) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            1 => {
                let i = r.below(v.len() + 1);
                v.insert(i, *r.pick(HOSTILE));
            }
            2 if v.len() > 1 => {
                let i = r.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            3 => v.insert(0, *r.pick(HOSTILE)),
            4 => v.push(*r.pick(HOSTILE)),
            5 if !v.is_empty() => {
                let n = r.below(v.len());
                v.truncate(n);
            }
            6 if r.chance(1, 3) => {
                let w = v.clone();
                v.extend(w);
            }
            _ if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = *r.pick(HOSTILE);
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

pub fn c28_mutate(c: &mut Case) {
    for _ in 0..8 {
        let (ma, mi, sz) = (c.rng.below(16) as u8, c.rng.below(16) as u8, size(&mut c.rng));
        let good = reference(*c.rng.pick(&IDENTS), ma, mi, sz);
        let s = mutate(&mut c.rng, &good);
        let want = jsn::is_version(&s);
        let d = c.total("deversify", || s.clone(), || es(deversify(&s)));
        if let Some(d) = d {
            match (want, d) {
                (true, Ok(d)) => {
                    let b = s.as_bytes();
                    let w = (&s[..4], hexv(&b[4..5]) as u8, hexv(&b[5..6]) as u8, "JSON", hexv(&b[10..16]));
                    c.check((d.ident.as_str(), d.version.major, d.version.minor, d.kind.as_str(), d.size) == w, "parsed", || format!("{s} {d:?}"));
                    c.ev("mutation still valid");
                }
                (true, Err(e)) => c.fail("valid-refused", format!("{s:?} {e}")),
                (false, Ok(d)) => c.fail("malformed-accepted", format!("{s:?} {d:?}")),
                (false, Err(_)) => c.ev("refused"),
            }
        }
        // the same inside data, at any distance, after near misses
        let start = match c.rng.below(3) {
            0 => c.rng.below(13),
            1 => c.rng.range(11, 14),
            _ => c.rng.below(60),
        };
        let mut raw = filler(&mut c.rng, start);
        if c.rng.chance(1, 4) {
            let k = c.rng.below(raw.len() + 1);
            raw.splice(k..k, mutate(&mut c.rng, &good).bytes().take(12));
        }
        raw.extend(if c.rng.chance(2, 3) { good.bytes().collect::<Vec<_>>() } else { s.bytes().collect() });
        let t = c.rng.below(30);
        let t = c.rng.bytes(t);
        raw.extend(&t);
        if c.rng.chance(1, 4) {
            raw.extend(good.bytes());
        }
        check_sniff(c, &raw);
        c.seen(&(s, raw));
    }
}

/// reference sizing: the document with the true length in its version field, if its layout allows
fn resize(m: &Map<String, J>) -> Option<Map<String, J>> {
    jsn::sized(m)
}

pub fn c28_size(c: &mut Case) {
    let mut m = jsn::object(&mut c.rng, 2, 7);
    m.remove("v");
    if c.rng.chance(1, 60) {
        let n = *c.rng.pick(&[200usize, 4000, 65_500, 1 << 20]) + c.rng.below(64);
        m.insert("blob".into(), json!("x".repeat(n)));
    }
    if c.index == 0 {
        // one document too large to state
        m.insert("blob".into(), json!("x".repeat(1 << 24)));
    }
    if c.index == 1 {
        // and the largest that can be stated
        m.insert("blob".into(), json!(""));
        let mut t = jsn::insert_at(&m, 0, "v", json!("KERI10JSON000000_"));
        let n = dump(&J::Object(t.clone())).len();
        t["blob"] = json!("y".repeat(0xff_ffff - n));
        m.insert("blob".into(), t["blob"].clone());
    }
    let sz = size(&mut c.rng);
    let good = reference(*c.rng.pick(&IDENTS), 1, 0, sz);
    let mut vs = good.clone();
    let kind = match c.rng.below(12) {
        0 => {
            vs = mutate(&mut c.rng, &good);
            "mutated version string"
        }
        1 => {
            vs = reference("KERI", c.rng.below(16) as u8, c.rng.below(16) as u8, 5);
            "any version"
        }
        _ => "version 1.0",
    };
    let mut at = 0;
    if c.rng.chance(1, 8) {
        at = c.rng.below(m.len() + 1);
    }
    if c.rng.chance(1, 8) {
        // another version string in the document
        let k = c.rng.below(m.len() + 1);
        let (a, b) = if c.rng.bool() { ("KERI10JSON0000aa_", json!(1)) } else { ("w", json!("ACDC10JSON0000bb_")) };
        m = jsn::insert_at(&m, k, a, b);
    }
    let m = if c.rng.chance(1, 25) { m } else { jsn::insert_at(&m, at, "v", if c.rng.chance(1, 25) { jsn::value(&mut c.rng, 1) } else { json!(vs) }) };
    let v = build(&J::Object(m.clone()));
    let text = dump(&J::Object(m.clone()));
    let karg = *c.rng.pick(&[None, Some("JSON"), None, Some("JSON"), None, Some("CBOR"), Some("")]);
    let got = match c.total("sizeify", || clip(&text), || es(sizeify(&v, karg))) {
        Some(g) => g,
        None => return,
    };
    let first = m.keys().next().map(|k| k == "v").unwrap_or(false);
    let want = if matches!(karg, None | Some("JSON")) { resize(&m) } else { None };
    match (&got, want) {
        (Ok(g), Some(w)) => {
            let t = dump(&J::Object(w.clone()));
            let ws = w["v"].as_str().unwrap();
            c.check(g.raw == t.as_bytes(), "sized-raw", || format!("got {} want {}", clip(&String::from_utf8_lossy(&g.raw)), clip(&t)));
            c.check(g.ked.to_json().ok().as_deref() == Some(&t), "sized-document", || format!("got {:?} want {}", g.ked.to_json().map(|s| clip(&s)), clip(&t)));
            c.check(g.ident == ws[..4] && g.kind == "JSON" && g.version == Version { major: 1, minor: 0 }, "sized-parts", || format!("{} {} {:?} {ws}", g.ident, g.kind, g.version));
            c.check(hexv(&ws.as_bytes()[10..16]) as usize == g.raw.len(), "stated-size", || format!("{ws} {}", g.raw.len()));
            let mut padded = g.raw.clone();
            padded.resize(padded.len().max(29), b' ');
            let s = es(sniff(&padded)).must("sniff of a sized document");
            c.check((s.ident.as_str(), s.size as usize) == (&ws[..4], g.raw.len()), "sniff-of-sized", || format!("{s:?}"));
            c.ev("documents sized");
            c.ev(&format!("{kind} sized"));
        }
        (Err(_), None) => c.ev("documents refused"),
        (Err(e), Some(_)) => c.fail("document-refused", format!("{e} {}", clip(&text))),
        (Ok(g), None) => {
            // a version field that is not first is outside the statement, but never mangles the document
            let same = !first && m.get("v").and_then(|v| v.as_str()).map(jsn::is_version).unwrap_or(false) && {
                let mut w = m.clone();
                let vs = m["v"].as_str().unwrap().to_string();
                w["v"] = json!(jsn::version_string(&vs[..4], text.len()));
                g.raw == dump(&J::Object(w)).as_bytes()
            };
            c.check(same, "malformed-document-sized", || format!("{karg:?} {}", clip(&text)));
            c.ev("sized with the version field later");
        }
    }
    c.check(v.to_json().ok().as_deref() == Some(&text), "document-changed", || clip(&text));
    c.seen(&text);
    c.sample(|| text);
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C28",
        rule: "an execution is one version string through writing, parsing and sniffing at several offsets, one mutated string, or one document sized; distinct by string or document",
        sections: vec![sec("round", 12_000, 200_000, c28_round), sec("mutate", 32_000, 400_000, c28_mutate), sec("size", 24_000, 300_000, c28_size)],
        require: vec![("version strings", 15_000), ("sniffed", 40_000), ("sniff refused", 10_000), ("refused", 30_000), ("mutation still valid", 1_000), ("documents sized", 1_500), ("documents refused", 800)],
        assumptions: vec!["serde_json prints compact JSON"],
        termination: false,
    }]
}
