//! C07: no input of the document-level interfaces crashes.
use crate::cesr::matter_qb64;
use crate::fw::*;
use crate::jsn::{self, build, dump, V};
use crate::p_codec::hostile_text;
use crate::p_prefix::{all_codes, inception, key_text, KEY_CODES};
use crate::p_said::document;
use crate::p_serder::{event, key_event};
use crate::types::es;
use cesride::common::{deversify, sizeify, sniff, versify, Version};
use cesride::data::Value;
use cesride::{Bext, Creder, Matter, Number, Pather, Prefixer, Sadder, Saider, Serder, Tholder};
use serde_json::{json, Map, Value as J};

const FIELDS: [&str; 24] = [
    "v", "d", "t", "i", "s", "p", "kt", "k", "nt", "n", "bt", "b", "c", "a", "br", "ba", "di", "f", "fn", "e", "ri", "r", "", "$id",
];

/// one hostile leaf: any JSON, or text near what some field expects
pub fn wild(r: &mut Rng) -> J {
    match r.below(16) {
        0 => json!(hostile_text(r)),
        1 => json!(*r.pick(&[i64::MAX, i64::MIN, -1, 0, 1, u32::MAX as i64, u32::MAX as i64 + 1, 1 << 62])),
        2 => json!(*r.pick(&[u64::MAX, 1 << 63])),
        3 => json!(*r.pick(&[f64::MAX, -f64::MAX, 1e19, -1e19, 9.3e18, 1e-320, 0.5, -0.0])),
        4 => json!([]),
        5 => json!({}),
        6 => {
            let n = r.below(5);
            J::Array((0..n).map(|_| wild(r)).collect())
        }
        7 => json!(weight(r)),
        8 => {
            let n = r.below(4);
            J::Array((0..n).map(|_| json!(weight(r))).collect())
        }
        9 => {
            let k = r.range(1, 3);
            J::Array((0..k).map(|_| J::Array((0..r.below(4)).map(|_| json!(weight(r))).collect())).collect())
        }
        10 => json!(vstring(r)),
        11 => {
            let k = *r.pick(&KEY_CODES);
            json!(key_text(r, k))
        }
        12 => {
            let raw = r.raw(32);
            json!(matter_qb64(*r.pick(&["E", "F", "G", "H", "I"]), &raw))
        }
        13 => json!(r.pick(&["", "-", "--", "-0", "-a-0", "0", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "-1", "+1", "7fffffff", "ffffffff", "100000000", "8000000000000000", "[", "[]", "[[]]", "[\"1\"]", "[\"1/2\",[\"1\"]]", "[[[\"1\"]]]", "é", "\u{0}"])),
        _ => jsn::value(r, 3),
    }
}

pub fn weight(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("{}/{}", r.below(4), r.below(4)),
        1 => format!("{}/{}", *r.pick(&[i32::MAX, i32::MIN, -1, 0, 1, i32::MAX - 1]), *r.pick(&[i32::MAX, i32::MIN, -1, 0, 1, 2])),
        2 => format!("{}/{}", r.u64(), r.u64()),
        3 => r.pick(&["", "/", "1/", "/1", "1/2/3", "0", "1", "2", "-1", "+1/2", "1/+2", " 1/2", "1 /2", "0/0", "1/0", "0/1", "1.0", "1s2", "é/1", "1/1", "0x1", "00/01", "１/２"]).to_string(),
        4 => jsn::string(r),
        _ => format!("1/{}", r.range(1, 4)),
    }
}

pub fn vstring(r: &mut Rng) -> String {
    let base = format!(
        "{}{:x}{:x}{}{:06x}_",
        r.pick(&["KERI", "ACDC", "keri", "XXXX", "K3RI", ""]),
        r.below(17),
        r.below(17),
        r.pick(&["JSON", "CBOR", "MGPK", "json", "XXXX", "", "JSO"]),
        *r.pick(&[0u64, 1, 17, 255, 0xffffff, 0x1000000, 0x7fffffff])
    );
    let mut s: Vec<char> = base.chars().collect();
    match r.below(8) {
        0 => {
            let i = r.below(s.len() + 1);
            s.insert(i, *r.pick(jsn::CHARS));
        }
        1 if !s.is_empty() => {
            let i = r.below(s.len());
            s.remove(i);
        }
        2 if !s.is_empty() => {
            let i = r.below(s.len());
            s[i] = *r.pick(jsn::CHARS);
        }
        3 => {
            let n = r.below(s.len() + 1);
            s.truncate(n);
        }
        _ => {}
    }
    s.into_iter().collect()
}

/// drop, retype, reorder and duplicate fields of a document
fn wreck(r: &mut Rng, m: &mut Map<String, J>) {
    for _ in 0..r.below(5) {
        match r.below(8) {
            0 => {
                jsn::mutate_map(r, m, &[]);
            }
            1 if !m.is_empty() => {
                let k = m.keys().nth(r.below(m.len())).unwrap().clone();
                m.shift_remove(&k);
            }
            2 if !m.is_empty() => {
                let mut e: Vec<_> = m.clone().into_iter().collect();
                r.shuffle(&mut e);
                *m = e.into_iter().collect();
            }
            3 => {
                let k = *r.pick(&FIELDS);
                let w = wild(r);
                let at = r.below(m.len() + 1);
                *m = jsn::insert_at(m, at, k, w);
            }
            4 if !m.is_empty() => {
                let k = m.keys().nth(r.below(m.len())).unwrap().clone();
                if let Some(J::Array(a)) = m.get_mut(&k) {
                    let w = wild(r);
                    let i = r.below(a.len() + 1);
                    a.insert(i, w);
                }
            }
            _ if !m.is_empty() => {
                let k = m.keys().nth(r.below(m.len())).unwrap().clone();
                m[&k] = wild(r);
            }
            _ => {}
        }
    }
}

fn some_map(r: &mut Rng) -> Map<String, J> {
    let mut m = match r.below(6) {
        0 => {
            let code = *r.pick(&all_codes());
            inception(r, code)
        }
        1 => event(r, *r.clone().pick(&["KERI", "ACDC"]), "E"),
        2 | 3 => {
            let mut m = key_event(r).map;
            if r.bool() {
                m = jsn::insert_at(&m, 0, "v", json!("KERI10JSON000000_"));
            }
            m
        }
        4 => document(r).map,
        _ => {
            let n = r.below(8);
            let mut m = Map::new();
            for _ in 0..n {
                let k = *r.pick(&FIELDS);
                m.insert(k.into(), wild(r));
            }
            m
        }
    };
    wreck(r, &mut m);
    m
}

fn read_serder(c: &mut Case, s: &Serder, ctx: &str) {
    let i = || ctx.to_string();
    macro_rules! t { ($($n:ident),*) => { $(if let Some(r) = c.total(stringify!($n), i, || es(s.$n())) { c.ev(if r.is_ok() { "accessor values" } else { "accessor errors" }); })* } }
    t!(verfers, digers, werfers, tholder, ntholder, sner, sn, fner, _fn, pre, preb, est);
    read_sad(c, s, ctx);
    for n in [Some(0), Some(1), Some(3), Some(10), Some(1 << 40), None] {
        c.total("pretty", i, || es(s.pretty(n)));
    }
    let k = c.total("clone", i, || s.clone());
    if let Some(mut k) = k {
        for kind in ["JSON", "CBOR", "MGPK", "", "é"] {
            c.total("populate_from_kind_and_self", i, || es(k.populate_from_kind_and_self(kind)));
        }
        c.total("debug", i, || format!("{k:?}"));
        c.total("eq", i, || k == *s);
    }
    if let Some(Ok(Some(t))) = c.total("tholder", i, || es(s.tholder())) {
        read_tholder(c, &t, ctx);
    }
    let vs = c.total("verfers", i, || es(s.verfers()));
    if let Some(Ok(vs)) = vs {
        for v in vs {
            c.total("verify", i, || es(v.verify(&[0u8; 64], b"x")));
        }
    }
}

fn read_sad<T: Sadder>(c: &mut Case, s: &T, ctx: &str) {
    let i = || ctx.to_string();
    c.total("said", i, || es(s.said()));
    c.total("saidb", i, || es(s.saidb()));
    c.total("plain", i, || (s.code(), s.raw(), s.ident(), s.kind(), s.size(), s.version(), s.saider().qb64().is_ok()));
    c.total("ked", i, || es(s.ked().to_json()));
}

fn read_creder(c: &mut Case, s: &Creder, ctx: &str) {
    let i = || ctx.to_string();
    c.total("crd", i, || s.crd());
    c.total("issuer", i, || es(s.issuer()));
    c.total("schema", i, || es(s.schema()));
    c.total("subject", i, || s.subject());
    c.total("status", i, || es(s.status()));
    c.total("chains", i, || es(s.chains()));
    read_sad(c, s, ctx);
    for n in [Some(0), Some(2), None] {
        c.total("pretty", i, || es(s.pretty(n)));
    }
}

fn read_tholder(c: &mut Case, t: &Tholder, ctx: &str) {
    let i = || ctx.to_string();
    c.total("thold", i, || t.thold());
    c.total("sith", i, || es(t.sith()));
    c.total("limen", i, || es(t.limen()));
    c.total("num", i, || es(t.num()));
    c.total("to_json", i, || es(t.to_json()));
    c.total("number", i, || t.number().map(|n| (es(n.num()), es(n.numh()), es(n.qb64()))));
    c.total("bexter", i, || t.bexter().map(|b| (es(b.bext()), es(b.qb64()))));
    c.total("shape", i, || (t.weighted(), t.size()));
    let mut sets: Vec<Vec<u32>> = vec![vec![], vec![0], vec![u32::MAX], vec![0, 0, 0], vec![t.size()], vec![t.size().wrapping_sub(1), t.size(), t.size().wrapping_add(1)]];
    let n = c.rng.below(12);
    sets.push((0..n).map(|_| if c.rng.bool() { c.rng.below(8) as u32 } else { c.rng.u32() }).collect());
    for s in sets {
        c.total("satisfy", || format!("{s:?} {ctx}"), || es(t.satisfy(&s)));
        c.ev("index sets judged");
    }
}

fn take_raw(c: &mut Case, raw: &[u8]) {
    let ctx = format!("raw {:?}", clip(&String::from_utf8_lossy(raw)));
    let i = || ctx.clone();
    if let Some(r) = c.total("sniff", i, || es(sniff(raw))) {
        c.ev(if r.is_ok() { "sniffed" } else { "sniff refused" });
    }
    match c.total("Serder::new_with_raw", i, || es(Serder::new_with_raw(raw))) {
        Some(Ok(s)) => {
            c.ev("raw events accepted");
            read_serder(c, &s, &ctx);
        }
        Some(Err(_)) => c.ev("raw events refused"),
        None => {}
    }
    match c.total("Creder::new_with_raw", i, || es(Creder::new_with_raw(raw))) {
        Some(Ok(s)) => {
            c.ev("raw credentials accepted");
            read_creder(c, &s, &ctx);
        }
        Some(Err(_)) => c.ev("raw credentials refused"),
        None => {}
    }
}

/// arbitrary and mutated event bytes
pub fn c07_bytes(c: &mut Case) {
    let r = &mut c.rng;
    let raw = match r.below(6) {
        0 => {
            let n = *r.pick(&[0usize, 1, 16, 17, 28, 29, 30, 45, 100, 400]);
            r.bytes(n)
        }
        1 => {
            // only a version string and noise, at any offset
            let mut v: Vec<u8> = r.pick(&["", "{", "{\"v\":\"", "            ", "\u{feff}{\"v\":\""]).as_bytes().to_vec();
            v.extend(vstring(r).bytes());
            v.extend_from_slice(r.pick(&["\"", "\",", "\"}", ""]).as_bytes());
            let n = r.below(60);
            v.extend(if r.bool() { r.bytes(n) } else { vec![b' '; n] });
            v
        }
        _ => {
            let mut m = some_map(r);
            if r.chance(4, 5) {
                m = jsn::insert_at(&m, 0, "v", json!(if r.chance(5, 6) { r.pick(&["KERI10JSON000000_", "ACDC10JSON000000_"]).to_string() } else { vstring(r) }));
                if let Some(x) = jsn::sized(&m) {
                    m = x;
                }
            }
            let mut v = dump(&J::Object(m)).into_bytes();
            let mut edits = if r.chance(1, 3) { r.range(1, 4) } else { 0 };
            while edits > 0 && !v.is_empty() {
                edits -= 1;
                let i = r.below(v.len());
                let early = r.below(v.len().min(30));
                match r.below(8) {
                    0 => v[i] ^= 1 << r.below(8),
                    1 => v[early] = r.below(256) as u8,
                    2 => v.truncate(i),
                    3 => v.insert(i, r.below(256) as u8),
                    4 => {
                        v.remove(early);
                    }
                    5 => v[i] = *r.pick(b"{}[]\",:0\\"),
                    6 => {
                        // stated size
                        if v.len() > 23 {
                            let s = format!("{:06x}", *r.pick(&[0usize, 1, 2, 29, v.len() - 1, v.len() + 1, 0xffffff, 40]));
                            v[17..23].copy_from_slice(s.as_bytes());
                        }
                    }
                    _ => {
                        let n = r.below(40);
                        let t = r.bytes(n);
                        v.extend(t);
                    }
                }
            }
            if r.chance(1, 30) {
                // deep nesting in the bytes
                let d = *r.pick(&[100usize, 126, 127, 128, 129, 1000, 100_000]);
                let open = *r.pick(&["[", "{\"a\":"]);
                let body = format!("{{\"v\":\"KERI10JSON{:06x}_\",\"d\":\"\",\"a\":{}", 0xfffff, open.repeat(d));
                v = body.into_bytes();
                let n = v.len();
                let s = format!("{:06x}", n.min(0xffffff));
                v[16..22].copy_from_slice(s.as_bytes());
            }
            v
        }
    };
    take_raw(c, &raw);
    c.sample(|| String::from_utf8_lossy(&raw).into_owned());
    c.seen(&raw);
}

fn wild_opt<'a>(r: &mut Rng, good: &[&'a str], pool: &'a [String]) -> Option<&'a str> {
    match r.below(5) {
        0 | 1 => None,
        2 | 3 => Some(*r.pick(good)),
        _ => Some(r.pick(pool).as_str()),
    }
}

/// documents of any shape at every door that takes one
pub fn c07_documents(c: &mut Case) {
    let mut m = some_map(&mut c.rng);
    let r = &mut c.rng;
    let mut top = J::Null;
    if r.chance(1, 25) {
        top = wild(r); // not an object at all
    }
    let repair = r.chance(1, 2);
    if repair {
        // make it acceptable: a digest and a version string
        let raw = r.raw(32);
        let at = r.below(m.len() + 1);
        m = jsn::insert_at(&m, at, "d", json!(matter_qb64("E", &raw)));
        m = jsn::insert_at(&m, 0, "v", json!(*r.pick(&["KERI10JSON000000_", "ACDC10JSON000000_"])));
    }
    let doc = if top.is_null() { J::Object(m) } else { top };
    let v = build(&doc);
    let ctx = dump(&doc);
    let pool: Vec<String> = vec![hostile_text(r), jsn::string(r), vstring(r), "".into(), "E ".into(), "é".into(), "D".into(), "1AAA".into(), "A".into()];
    let code = wild_opt(r, &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"], &pool);
    let kind = wild_opt(r, &["JSON", "CBOR", "MGPK"], &pool);
    let label = wild_opt(r, &["d", "i", "v", "t", "k", "$id"], &pool);
    let ig: Vec<&str> = (0..r.below(4)).map(|_| if r.bool() { *r.pick(&FIELDS) } else { pool[r.below(pool.len())].as_str() }).collect();
    let ignore = if r.bool() { None } else { Some(&ig[..]) };
    let pcode = wild_opt(r, &all_codes(), &pool);
    let (pre, ver) = (*r.pick(&[None, Some(true), Some(false)]), *r.pick(&[None, Some(true), Some(false)]));
    let allow: Vec<&str> = (0..r.below(3)).map(|_| *r.pick(&FIELDS)).collect();
    let allows = if r.bool() { None } else { Some(&allow[..]) };
    let full = format!("code {code:?}/{pcode:?} kind {kind:?} label {label:?} ignore {ignore:?} allows {allows:?} {ctx}");
    let i = || full.clone();
    match c.total("Serder::new_with_ked", i, || es(Serder::new_with_ked(&v, code, kind))) {
        Some(Ok(s)) => {
            c.ev("events accepted");
            read_serder(c, &s, &ctx);
        }
        Some(Err(_)) => c.ev("events refused"),
        None => {}
    }
    match c.total("Creder::new_with_ked", i, || es(Creder::new_with_ked(&v, code, kind))) {
        Some(Ok(s)) => {
            c.ev("credentials accepted");
            read_creder(c, &s, &ctx);
        }
        Some(Err(_)) => c.ev("credentials refused"),
        None => {}
    }
    match c.total("saidify", i, || es(Saider::saidify(&v, code, kind, label, ignore))) {
        Some(Ok((s, d))) => {
            c.ev("documents self-addressed");
            c.total("verify", i, || es(s.verify(&d, pre, ver, kind, label, ignore)));
            c.total("verify-other", i, || es(s.verify(&v, pre, ver, kind, label, ignore)));
        }
        Some(Err(_)) => c.ev("documents refused"),
        None => {}
    }
    c.total("new_with_sad", i, || es(Saider::new_with_sad(&v, label, kind, ignore, code)));
    let raw = c.rng.raw(32);
    let said = matter_qb64("E", &raw);
    let s = Saider::new_with_qb64(&said).must("saider");
    if let Some(r) = c.total("verify-any", i, || es(s.verify(&v, pre, ver, kind, label, ignore))) {
        c.ev(if r.is_ok() { "verified or not" } else { "verification refused" });
    }
    match c.total("Prefixer::new_with_ked", i, || es(Prefixer::new_with_ked(&v, allows, pcode))) {
        Some(Ok(p)) => {
            c.ev("prefixes derived");
            c.total("prefix-verify", i, || es(p.verify(&v, pre)));
        }
        Some(Err(_)) => c.ev("prefixes refused"),
        None => {}
    }
    let kc = *c.rng.pick(&all_codes());
    let n = crate::cesr::mcode(kc).unwrap().raw.unwrap();
    let raw = c.rng.raw(n);
    if let Some(Ok(p)) = c.total("Prefixer::new_with_qb64", i, || es(Prefixer::new_with_qb64(&matter_qb64(kc, &raw)))) {
        if let Some(r) = c.total("prefix-verify-any", i, || es(p.verify(&v, pre))) {
            c.ev(if r.is_ok() { "prefix judged" } else { "prefix judgement refused" });
        }
    }
    c.total("sizeify", i, || es(sizeify(&v, kind)));
    c.total("sizeify", i, || es(sizeify(&v, None)));
    c.sample(|| ctx.clone());
    c.seen(&full);
}

/// threshold expressions and index sets
pub fn c07_thresholds(c: &mut Case) {
    let r = &mut c.rng;
    let j = match r.below(6) {
        0 => wild(r),
        1 => json!(dump(&wild(r))),
        2 => {
            // near-valid nested lists
            let k = r.range(1, 3);
            let mut v: Vec<J> = (0..k)
                .map(|_| {
                    let n = r.range(1, 5);
                    J::Array((0..n).map(|_| if r.chance(1, 12) { wild(r) } else { json!(weight(r)) }).collect())
                })
                .collect();
            if r.chance(1, 6) {
                v.push(wild(r));
            }
            J::Array(v)
        }
        3 if r.chance(1, 20) => {
            // many weights
            let n = if r.chance(1, 10) { r.range(100, 300) } else { r.range(1, 60) };
            J::Array((0..n).map(|_| json!(format!("1/{}", 1 + r.below(1 << 20)))).chain([json!("1")]).collect())
        }
        4 => J::Array((0..r.range(1, 5)).map(|_| json!(*r.pick(&["1/2", "1/3", "1", "0", "2/3", "1/2147483647", "2147483646/2147483647"]))).collect()),
        _ => json!(weight(r)),
    };
    let v = build(&j);
    let limen: Vec<u8> = match r.below(5) {
        0 => {
            let n = r.below(60);
            r.bytes(n)
        }
        1 => hostile_text(r).into_bytes(),
        2 => {
            let s: String = (0..r.below(30)).map(|_| *r.pick(&['a', 'c', 's', '0', '1', '2', '9', '-', '_', 'Z'])).collect();
            crate::cesr::bext_qb64(&s).into_bytes()
        }
        3 => {
            let code = *r.pick(&["M", "0H", "N", "0A"]);
            let n = crate::cesr::mcode(code).unwrap().raw.unwrap();
            let raw = r.raw(n);
            matter_qb64(code, &raw).into_bytes()
        }
        _ => {
            let mut v = matter_qb64("E", &r.raw(32)).into_bytes();
            v.truncate(r.below(45));
            v
        }
    };
    let ctx = format!("{} limen {:?}", dump(&j), String::from_utf8_lossy(&limen));
    let i = || ctx.clone();
    type Make = fn(&V, &[u8]) -> Result<Tholder, String>;
    let doors: [(&str, Make); 6] = [
        ("thold", |v, _| es(Tholder::new_with_thold(v))),
        ("sith", |v, _| es(Tholder::new_with_sith(v))),
        ("limen", |_, l| es(Tholder::new_with_limen(l))),
        ("limen+sith", |v, l| es(Tholder::new(None, Some(l), Some(v)))),
        ("all", |v, l| es(Tholder::new(Some(v), Some(l), Some(v)))),
        ("none", |_, _| es(Tholder::new(None, None, None))),
    ];
    for (name, f) in doors {
        match c.total(name, i, || f(&v, &limen)) {
            Some(Ok(t)) => {
                c.ev("thresholds accepted");
                read_tholder(c, &t, &ctx);
            }
            Some(Err(_)) => c.ev("thresholds refused"),
            None => {}
        }
    }
    let t = Tholder::default();
    read_tholder(c, &t, "default threshold");
    c.sample(|| ctx.clone());
    c.seen(&ctx);
}

/// values, version strings and paths
pub fn c07_values(c: &mut Case) {
    let r = &mut c.rng;
    let j = if r.bool() { wild(r) } else { jsn::value(r, 5) };
    let ctx = dump(&j);
    let i = || ctx.clone();
    let Some(v) = c.total("From<serde_json>", i, || Value::from(&j)) else { return };
    c.total("to_json", i, || es(v.to_json()));
    c.total("conversions", i, || (es(v.to_bool()), es(v.to_string()), es(v.to_i64()), es(v.to_f64()), es(v.to_vec()), es(v.to_map())));
    c.total("eq", i, || v == v.clone());
    c.total("debug", i, || format!("{v:?}"));
    c.ev("values converted");
    // numbers of any size as text
    let r = &mut c.rng;
    let digits: String = (0..r.range(1, 40)).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    let num = format!("{}{}{}", r.pick(&["", "-"]), digits, r.pick(&["", ".5", "e5", "e300", "E-400", ".0e1"]));
    if let Ok(n) = serde_json::from_str::<J>(&num) {
        let i = || num.clone();
        if let Some(v) = c.total("From<number>", i, || Value::from(&n)) {
            c.total("to_json", i, || es(v.to_json()));
            c.total("conversions", i, || (es(v.to_i64()), es(v.to_f64()), es(v.to_string())));
            c.ev("numbers converted");
        }
    }
    // floats that JSON has no spelling for
    let f = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, -0.0]);
    let fv = Value::from(f);
    let i = || format!("{f}");
    c.total("float to_json", i, || es(fv.to_json()));
    c.total("float conversions", i, || (es(fv.to_i64()), es(fv.to_f64()), es(fv.to_bool())));
    let mut ev = Map::new();
    ev.insert("v".into(), json!("KERI10JSON000000_"));
    let mut with = build(&J::Object(ev));
    with["x"] = fv.clone();
    with["d"] = build(&json!(""));
    c.total("float in document", i, || es(Saider::saidify(&with, None, None, None, None)));
    c.total("float in event", i, || es(Serder::new_with_ked(&with, None, None)));
    // version strings
    let vs = vstring(&mut c.rng);
    let i = || vs.clone();
    if let Some(r) = c.total("deversify", i, || es(deversify(&vs))) {
        c.ev(if r.is_ok() { "version strings read" } else { "version strings refused" });
    }
    let r = &mut c.rng;
    let (a, b) = (jsn::string(r), vstring(r));
    let ident = *r.pick(&[None, Some("KERI"), Some("ACDC"), Some(""), Some("é"), Some(a.as_str())]);
    let kind = *r.pick(&[None, Some("JSON"), Some("CBOR"), Some(""), Some(b.as_str())]);
    let ver = Version { major: *r.pick(&[0, 1, 15, 16, 100, u8::MAX]), minor: *r.pick(&[0, 1, 15, 16, u8::MAX]) };
    let size = *r.pick(&[0u32, 1, 0xffffff, 0x1000000, u32::MAX]);
    let i = || format!("{ident:?} {ver:?} {kind:?} {size}");
    c.total("versify", i, || es(versify(ident, Some(&ver), kind, Some(size))));
    c.total("versify", i, || es(versify(ident, None, kind, Some(size))));
    // paths against any document
    let r = &mut c.rng;
    let bext: String = match r.below(3) {
        0 => jsn::string(r),
        1 => (0..r.below(12)).map(|_| *r.pick(&['-', '-', '0', '1', '9', 'a', 'k', 'd', '_'])).collect(),
        _ => {
            let mut s = String::new();
            for _ in 0..r.below(5) {
                s.push('-');
                s.push_str(r.pick(&["0", "1", "5", "18446744073709551615", "99999999999999999999999", "a", "k", "d", "", "00", "b"]));
            }
            s
        }
    };
    let pv = wild(r);
    let ctx2 = format!("path {bext:?} / {} on {}", dump(&pv), ctx);
    let i = || ctx2.clone();
    let pvv = build(&pv);
    let mut paths = vec![];
    for p in [
        c.total("Pather::new_with_bext", i, || es(Pather::new_with_bext(&bext))),
        c.total("Pather::new_with_path", i, || es(Pather::new_with_path(&pvv))),
        c.total("Pather::new_with_raw", i, || es(Pather::new_with_raw(bext.as_bytes(), c_code(bext.len())))),
    ] {
        match p {
            Some(Ok(p)) => paths.push(p),
            _ => c.ev("paths refused"),
        }
    }
    let m = some_map(&mut c.rng);
    let other = build(&J::Object(m));
    let ser = c.total("Serder", i, || es(Serder::new_with_ked(&other, None, None)));
    for p in &paths {
        c.ev("paths accepted");
        c.total("path", i, || es(p.path()));
        c.total("bext", i, || es(p.bext()));
        for d in [&v, &other] {
            if let Some(r) = c.total("resolve", i, || es(p.resolve(d))) {
                c.ev(if r.is_ok() { "paths resolved" } else { "paths unresolved" });
            }
        }
        if let Some(Ok(s)) = &ser {
            c.total("tail", i, || es(p.tail(s)));
        }
        for q in &paths {
            c.total("root", i, || es(p.root(q)));
            c.total("strip", i, || es(p.strip(q)));
            c.total("starts_with", i, || es(p.starts_with(q)));
        }
    }
    // numbers from any text
    let h = jsn::string(&mut c.rng);
    let i = || h.clone();
    c.total("Number::new_with_numh", i, || es(Number::new(None, Some(&h), None, None, None, None, None)));
    c.seen(&(ctx2, num, vs));
}

fn c_code(n: usize) -> Option<&'static str> {
    Some(["4A", "5A", "6A"][(3 - n % 3) % 3])
}

/// every single byte of a valid event or credential changed to several others, and every truncation
pub fn c07_around(c: &mut Case) {
    let credential = c.rng.chance(1, 4);
    let mut m = if credential { event(&mut c.rng, "ACDC", "E") } else { key_event(&mut c.rng).map };
    m = jsn::insert_at(&m, 0, "v", json!(if credential { "ACDC10JSON000000_" } else { "KERI10JSON000000_" }));
    let Some(m) = jsn::sized(&m) else { return };
    let good = dump(&J::Object(m)).into_bytes();
    if good.len() > 3000 {
        return;
    }
    let step = 1 + good.len() / 120;
    let off = c.rng.below(step);
    let mut n = 0u64;
    for at in (off..good.len()).step_by(step) {
        for b in [b'"', b'{', b']', 0x80, b'0', good[at] ^ 0x20] {
            let mut raw = good.clone();
            raw[at] = b;
            let i = || format!("byte {at} set to {b:#x} in {}", String::from_utf8_lossy(&good));
            if let Some(Ok(s)) = c.total("Serder::new_with_raw", i, || es(Serder::new_with_raw(&raw))) {
                c.ev("changed events accepted");
                for f in [Serder::est as fn(&Serder) -> cesride::Result<bool>, |s| s.verfers().map(|_| true), |s| s.digers().map(|_| true), |s| s.werfers().map(|_| true), |s| s.tholder().map(|_| true), |s| s.ntholder().map(|_| true), |s| s.sn().map(|_| true), |s| s.fner().map(|_| true), |s| s.pre().map(|_| true)] {
                    c.total("accessor", i, || es(f(&s)));
                }
            }
            if credential {
                if let Some(Ok(s)) = c.total("Creder::new_with_raw", i, || es(Creder::new_with_raw(&raw))) {
                    c.ev("changed credentials accepted");
                    for f in [Creder::issuer as fn(&Creder) -> cesride::Result<String>, Creder::schema, |s| s.status().map(|_| String::new()), |s| s.chains().map(|_| String::new()), |s| Ok(format!("{:?}", s.subject()))] {
                        c.total("accessor", i, || es(f(&s)));
                    }
                }
            }
            n += 1;
        }
        let i = || format!("cut at {at}: {}", String::from_utf8_lossy(&good[..at]));
        c.total("Serder::new_with_raw", i, || es(Serder::new_with_raw(&good[..at])));
        c.total("sniff", i, || es(sniff(&good[..at])));
        n += 1;
    }
    c.evn("neighbours of valid events tried", n);
    c.seen(&good);
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C07",
        rule: "monitor: arbitrary and mutated bytes, wrecked documents, threshold expressions, values, version strings and paths driven through every document-level door and every accessor of what is accepted; any panic, arithmetic overflow, abort or hang is a violation",
        sections: vec![
            sec("bytes", 60_000, 3_000_000, c07_bytes),
            sec("documents", 40_000, 2_000_000, c07_documents),
            sec("thresholds", 40_000, 2_000_000, c07_thresholds),
            sec("values", 60_000, 2_000_000, c07_values),
            sec("around", 600, 60_000, c07_around),
        ],
        require: vec![
            ("raw events accepted", 1000),
            ("raw events refused", 1000),
            ("raw credentials accepted", 300),
            ("events accepted", 1000),
            ("credentials accepted", 500),
            ("documents self-addressed", 1000),
            ("prefixes derived", 100),
            ("thresholds accepted", 1000),
            ("thresholds refused", 1000),
            ("paths accepted", 1000),
            ("paths resolved", 100),
            ("version strings read", 500),
            ("changed events accepted", 100),
        ],
        assumptions: vec![
            "built with overflow checks and debug assertions, so arithmetic overflow is observed as a panic",
            "documents are nested no deeper than the JSON reader accepts (128); a document nested deeper by program exhausts the stack like any recursive value",
            "indexing operators of structured data, documented to panic like the standard ones, are not called on absent fields",
        ],
        termination: true,
    }]
}
