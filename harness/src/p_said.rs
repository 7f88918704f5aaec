//! C13, C14: self-addressing identifiers.
use crate::cesr;
use crate::fw::*;
use crate::jsn::{self, build, dump};
use crate::p_codec::frayed;
use crate::p_digest::DIGEST_CODES;
use crate::types::es;
use cesride::{Matter, Saider};
use serde_json::{json, Map, Value as J};

pub struct Doc {
    pub map: Map<String, J>,
    pub label: String,
    pub ignore: Vec<String>,
    pub versioned: bool,
}

pub fn document(r: &mut Rng) -> Doc {
    let label = match r.below(6) {
        0 => "i".to_string(),
        1 => r.pick(&["$id", "@id", "id"]).to_string(),
        2 if r.chance(1, 4) => jsn::key(r),
        _ => "d".to_string(),
    };
    let max = if r.chance(1, 12) { 40 } else { 8 };
    let mut map = jsn::object(r, 3, max);
    let at = r.below(map.len() + 1);
    let mut placeholder = match r.below(6) {
        0 => J::Null,
        1 => json!(5),
        2 => json!(["x"]),
        3 => json!("EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"),
        _ => json!(""),
    };
    if r.chance(1, 8) {
        placeholder = jsn::value(r, 1);
    }
    map = jsn::insert_at(&map, at, &label, placeholder);
    // other fields that look like identifiers
    if r.chance(1, if label == "d" { 4 } else { 2 }) {
        for k in ["d", "i", "id", "$id", "@id", "a", "said"] {
            if k != label && r.chance(1, 3) {
                let x = match r.below(4) {
                    0 => json!(""),
                    1 => json!(5),
                    2 => J::Null,
                    _ => {
                        let code = *r.pick(&DIGEST_CODES);
                        let n = cesr::mcode(code).unwrap().raw.unwrap();
                        json!(cesr::matter_qb64(code, &r.bytes(n)))
                    }
                };
                let at = r.below(map.len() + 1);
                map.shift_remove(k);
                map = jsn::insert_at(&map, at.min(map.len()), k, x);
            }
        }
    }
    let versioned = r.bool();
    if versioned {
        let stale = r.pick(&["KERI10JSON000000_", "ACDC10JSON000000_", "KERI10JSONffffff_", "ACDC10JSON0000f0_", "KERI10JSON0abcde_"]).to_string();
        map = jsn::insert_at(&map, 0, "v", json!(stale));
    }
    if r.chance(1, 150) {
        // sizes that need more hexadecimal digits
        let n = *r.pick(&[4096usize, 65_536, 70_000, 1_100_000]);
        map.insert("blob".into(), json!("b".repeat(n)));
    }
    let mut ignore = vec![];
    if r.chance(1, 3) {
        for k in map.keys() {
            if *k != label && k != "v" && r.chance(1, 3) {
                ignore.push(k.clone());
            }
        }
        if r.chance(1, 4) {
            ignore.push("no-such-field".into());
        }
        // the fields that take part in the derivation itself, and repetitions
        if r.chance(1, 6) {
            ignore.push(label.clone());
        }
        if r.chance(1, 6) {
            ignore.push("v".into());
        }
        // names that only look the same
        if r.chance(1, 3) && !ignore.is_empty() {
            let k = r.pick(&ignore).clone();
            let near = match r.below(5) {
                0 => k.to_uppercase(),
                1 => k.to_lowercase(),
                2 => format!("{k} "),
                3 => format!("{k}{k}"),
                _ => k.chars().take(1).collect(),
            };
            if near != k && near != "v" && !near.is_empty() && !map.contains_key(&near) {
                if r.bool() {
                    let at = r.range(1, map.len());
                    let x = jsn::value(r, 1);
                    map = jsn::insert_at(&map, at, &near, x);
                } else {
                    ignore.push(near);
                }
            }
        }
        if r.chance(1, 6) && !ignore.is_empty() {
            let again = r.pick(&ignore).clone();
            ignore.push(again);
        }
        let mut ig = ignore;
        r.shuffle(&mut ig);
        ignore = ig;
    }
    Doc { map, label, ignore, versioned }
}

/// reference: the embedded document
pub fn embed(d: &Doc, code: &str) -> (String, Map<String, J>) {
    let ig: Vec<&str> = d.ignore.iter().map(|s| s.as_str()).collect();
    let (raw, mut m) = jsn::derive(&d.map, code, &[&d.label], &ig).expect("derivable document");
    let said = cesr::matter_qb64(code, &raw);
    m[&d.label] = json!(said);
    (said, m)
}

fn show(m: &Map<String, J>) -> String {
    clip(&dump(&J::Object(m.clone())))
}

pub fn c13_derive(c: &mut Case) {
    let d = document(&mut c.rng);
    let code = DIGEST_CODES[c.index as usize % 9];
    let (said, want) = embed(&d, code);
    let v = build(&J::Object(d.map.clone()));
    let before = v.to_json().must("to_json");
    let ig: Vec<&str> = d.ignore.iter().map(|s| s.as_str()).collect();
    let ignore = if ig.is_empty() && c.rng.bool() { None } else { Some(&ig[..]) };
    let label = if d.label == "d" && c.rng.bool() { None } else { Some(d.label.as_str()) };
    let kind = if c.rng.bool() { None } else { Some("JSON") };
    let code_arg = if code == "E" && c.rng.bool() { None } else { Some(code) };
    let ctx = || format!("code {code} label {} ignore {ig:?} doc {}", d.label, show(&d.map));
    let (saider, sad) = match es(Saider::saidify(&v, code_arg, kind, label, ignore)) {
        Ok(x) => x,
        Err(e) => {
            c.fail("refused:saidify", format!("{e} {}", ctx()));
            return;
        }
    };
    let got = sad.to_json().must("to_json");
    let want_text = dump(&J::Object(want.clone()));
    c.check(es(saider.qb64()) == Ok(said.clone()), "identifier", || format!("got {:?} want {said} {}", saider.qb64(), ctx()));
    c.check(got == want_text, "embedded-document", || format!("got {} want {} {}", clip(&got), clip(&want_text), ctx()));
    c.check(v.to_json().must("to_json") == before, "input-changed", ctx);
    c.evn("document bytes derived", want_text.len() as u64);
    c.ev(if d.versioned { "versioned" } else { "unversioned" });
    if !ig.is_empty() {
        c.ev("ignored fields");
    }
    // an embedded document verifies, under every way of asking
    let mem = build(&J::Object(want.clone()));
    for prefixed in [None, Some(false), Some(true)] {
        for versioned in [None, Some(false), Some(true)] {
            let r = es(saider.verify(&mem, prefixed, versioned, kind, label, ignore));
            c.check(r == Ok(true), "embedded-refused", || format!("{r:?} prefixed {prefixed:?} versioned {versioned:?} {}", ctx()));
            c.ev("verified");
        }
    }
    let again = es(Saider::new_with_qb64(&said)).must("saider from text");
    c.check(es(again.verify(&mem, Some(true), None, None, label, ignore)) == Ok(true), "embedded-refused-by-text", ctx);
    // derivation again from the embedded document, code taken from the document or given
    for k in [None, Some(code)] {
        let s = es(Saider::new_with_sad(&mem, label, kind, ignore, k));
        c.check(s.as_ref().map(|s| es(s.qb64())) == Ok(Ok(said.clone())), "rederived", || format!("{s:?} {}", ctx()));
    }
    let other = DIGEST_CODES[c.rng.below(9)];
    let (said2, _) = embed(&d, other);
    let s = es(Saider::new_with_sad(&v, label, kind, ignore, Some(other)));
    c.check(s.as_ref().map(|s| es(s.qb64())) == Ok(Ok(said2.clone())), "derived-other-code", || format!("{other} {s:?} {}", ctx()));
    c.check(mem.to_json().must("to_json") == want_text, "document-changed-by-verify", ctx);
    // saidify is idempotent
    let twice = es(Saider::saidify(&mem, Some(code), kind, label, ignore)).must("saidify again");
    c.check(twice.1.to_json().must("json") == want_text && es(twice.0.qb64()) == Ok(said.clone()), "not-idempotent", ctx);
    c.sample(|| format!("{said} <- {}", ctx()));
    c.seen(&(code, &d.label, &want_text));
}

pub fn c13_refuse(c: &mut Case) {
    let mut d = document(&mut c.rng);
    let label = d.label.clone();
    let v = |m: &Map<String, J>| build(&J::Object(m.clone()));
    // missing label
    let mut m = d.map.clone();
    m.shift_remove(&label);
    let x = v(&m);
    let r = c.total("saidify", || show(&m), || es(Saider::saidify(&x, None, None, Some(&label), None)));
    c.check(matches!(r, Some(Err(_))), "missing-label-accepted", || show(&m));
    let r = c.total("new_with_sad", || show(&m), || es(Saider::new_with_sad(&x, Some(&label), None, None, None)));
    c.check(matches!(r, Some(Err(_))), "missing-label-accepted", || show(&m));
    // no algorithm given, and none to be read from the field
    {
        let code = *c.rng.pick(&DIGEST_CODES);
        let n = cesr::mcode(code).unwrap().raw.unwrap();
        let good = cesr::matter_qb64(code, &c.rng.raw(n));
        let k = c.rng.range(1, good.len() - 1);
        let x = match c.rng.below(9) {
            0 => json!(*c.rng.pick(&[" ", "\n", "\t", "\u{a0}", "\0", "#", "################", "-"])),
            1 => json!(good[..k]),
            2 => json!(cesr::matter_qb64("B", &c.rng.raw(32))),
            3 => json!(cesr::matter_qb64("0A", &c.rng.raw(16))),
            4 => json!(*c.rng.pick(&["E", "F", "0D", "d", "none", "é"])),
            5 => J::Null,
            6 => json!(c.rng.below(100)),
            7 => json!([good]),
            _ => json!(format!(" {good}")),
        };
        let mut m = d.map.clone();
        m[&label] = x;
        let x = v(&m);
        let r = c.total("new_with_sad", || show(&m), || es(Saider::new_with_sad(&x, Some(&label), None, None, None)));
        c.check(matches!(r, Some(Err(_))), "algorithm-made-up", || format!("{r:?} {}", show(&m)));
        c.ev("refused");
    }
    // not a digest code
    for code in ["A", "B", "D", "0A", "0B", "1AAG", "M", "", "Z"] {
        let x = v(&d.map);
        let r = c.total("saidify", || code.to_string(), || es(Saider::saidify(&x, Some(code), None, Some(&label), None)));
        c.check(matches!(r, Some(Err(_))), "non-digest-code-accepted", || code.to_string());
        c.ev("refused");
    }
    for kind in ["CBOR", "MGPK", "json", ""] {
        let x = v(&d.map);
        let r = c.total("saidify", || kind.to_string(), || es(Saider::saidify(&x, None, Some(kind), Some(&label), None)));
        c.check(matches!(r, Some(Err(_))), "unknown-kind-accepted", || kind.to_string());
        c.ev("refused");
    }
    // version strings that are none
    for vs in ["", "KERI10JSON000000", "KERI10JSON00000g_", "KERI10CBOR000000_", "XERI10JSON000000_", "KERI11JSON000000_", "keri10json000000_", "KERI10JSON0000000_", "xKERI10JSON000000_", "KERI10JSON000000__"] {
        d.map = jsn::insert_at(&d.map, 0, "v", json!(vs));
        let x = v(&d.map);
        let r = c.total("saidify", || vs.to_string(), || es(Saider::saidify(&x, None, None, Some(&label), None)));
        c.check(matches!(r, Some(Err(_))), "bad-version-accepted", || format!("{vs} {r:?}"));
        c.ev("refused");
    }
    c.seen(&show(&d.map));
}

pub fn c14_mutate(c: &mut Case) {
    let d = document(&mut c.rng);
    let code = DIGEST_CODES[c.index as usize % 9];
    let (said, good) = embed(&d, code);
    let saider = Saider::new_with_qb64(&said).must("saider");
    let ig: Vec<&str> = d.ignore.iter().map(|s| s.as_str()).collect();
    let ignore = Some(&ig[..]);
    let label = Some(d.label.as_str());
    let good_text = dump(&J::Object(good.clone()));
    for _ in 0..10 {
        let mut m = good.clone();
        let mut fixed: Vec<&str> = vec![d.label.as_str()];
        fixed.extend(&ig);
        if d.versioned {
            fixed.push("v");
        }
        let kind = match c.rng.below(10) {
            0 if !ig.is_empty() => {
                // confined to ignored fields
                let k = c.rng.pick(&ig).to_string();
                let own = c.rng.bool();
                if let Some(x) = m.get_mut(&k).filter(|_| k != d.label && k != "v") {
                    if own {
                        // the identifier itself, in a field that is not the labelled one
                        *x = json!(said);
                    } else {
                        jsn::mutate_value(&mut c.rng, x);
                    }
                }
                if c.rng.chance(1, 3) {
                    m[&d.label] = json!("");
                }
                "ignored-field"
            }
            1 => {
                // the labelled field
                m[&d.label] = match c.rng.below(9) {
                    7 | 8 => json!(frayed(&mut c.rng, &said)),
                    4 => json!(format!("{said}A")),
                    5 => json!(said[..said.len() - 1]),
                    6 => json!(said.to_lowercase()),
                    0 => J::Null,
                    1 => json!(""),
                    2 => {
                        let mut s: Vec<u8> = said.bytes().collect();
                        let i = c.rng.range(2, s.len() - 1);
                        s[i] = if s[i] == b'A' { b'B' } else { b'A' };
                        json!(String::from_utf8(s).unwrap())
                    }
                    _ => jsn::value(&mut c.rng, 1),
                };
                "labelled-field"
            }
            2 if d.versioned => {
                let v = m["v"].as_str().unwrap().to_string();
                let n = c.rng.below(0xffffff);
                m["v"] = match c.rng.below(7) {
                    4 => json!(frayed(&mut c.rng, &v)),
                    5 => json!(format!("{}{}_", &v[..10], v[10..16].to_uppercase())),
                    0 => json!(jsn::version_string(&v[..4], n)),
                    1 => json!(v.replace("KERI", "xxxx").replace("ACDC", "KERI").replace("xxxx", "ACDC")),
                    2 => json!(v.replace("10JSON", "11JSON")),
                    3 => json!("KERI10JSON"),
                    _ => json!(v.to_lowercase()),
                };
                "version-field"
            }
            3 | 4 => {
                // deep change inside one of the covered fields
                let free: Vec<String> = m.keys().filter(|k| !fixed.contains(&k.as_str())).cloned().collect();
                if free.is_empty() {
                    jsn::mutate_map(&mut c.rng, &mut m, &fixed)
                } else {
                    let k = c.rng.pick(&free).clone();
                    jsn::mutate_value(&mut c.rng, m.get_mut(&k).unwrap())
                }
            }
            _ => jsn::mutate_map(&mut c.rng, &mut m, &fixed),
        };
        let text = dump(&J::Object(m.clone()));
        let changed = text != good_text;
        let covered = !matches!(kind, "ignored-field" | "labelled-field" | "version-field");
        let x = build(&J::Object(m.clone()));
        for prefixed in [false, true] {
            for versioned in [false, true] {
                // the reference verdict
                let want = match jsn::derive(&m, code, &[&d.label], &ig) {
                    None => false,
                    Some((raw, dm)) => {
                        cesr::matter_qb64(code, &raw) == said
                            && (!versioned || !m.contains_key("v") || m["v"] == dm["v"])
                            && (!prefixed || m.get(&d.label).and_then(|x| x.as_str()) == Some(said.as_str()))
                    }
                };
                if changed && covered && want {
                    // reordering an ignored field, or the like: nothing to detect
                    c.ev("change outside the digest");
                }
                let r = c.total("verify", || text.clone(), || es(saider.verify(&x, Some(prefixed), Some(versioned), None, label, ignore)));
                let got = matches!(r, Some(Ok(true)));
                c.check(got == want, if want { "refused-intact" } else { "change-not-detected" }, || {
                    format!("{kind} prefixed {prefixed} versioned {versioned} got {r:?} label {} ignore {ig:?} said {said} doc {}", d.label, clip(&text))
                });
                c.ev(if want { "verified" } else { "detected" });
            }
        }
        c.ev(&format!("change: {kind}"));
        c.seen(&(&said, &text));
    }
    // change of the identifier or its algorithm
    let x = build(&J::Object(good.clone()));
    let raw = saider.raw();
    for _ in 0..3 {
        let mut w = raw.clone();
        let i = c.rng.below(w.len() * 8);
        w[i / 8] ^= 1 << (i % 8);
        let s = Saider::new_with_raw(&w, Some(code)).must("saider");
        for p in [None, Some(true)] {
            let r = es(s.verify(&x, p, None, None, label, ignore));
            c.check(!matches!(r, Ok(true)), "changed-identifier-verifies", || format!("bit {i} of {said}"));
            c.ev("detected");
        }
    }
    // the same letters in another case are another identifier
    for _ in 0..3 {
        let mut s: Vec<u8> = said.bytes().collect();
        let from = code.len();
        for b in s[from..].iter_mut() {
            if c.rng.chance(1, 8) {
                *b ^= if b.is_ascii_alphabetic() { 0x20 } else { 0 };
            }
        }
        let other = String::from_utf8(s).unwrap();
        if other == said {
            continue;
        }
        let Ok(s) = Saider::new_with_qb64(&other) else { continue };
        for p in [None, Some(true)] {
            let r = es(s.verify(&x, p, None, None, label, ignore));
            c.check(!matches!(r, Ok(true)), "changed-identifier-verifies", || format!("{other} for {said}"));
            c.ev("detected");
        }
    }
    for o in DIGEST_CODES {
        if o == code {
            continue;
        }
        let mut w = raw.clone();
        w.resize(cesr::mcode(o).unwrap().raw.unwrap(), 0);
        let s = Saider::new_with_raw(&w, Some(o)).must("saider");
        let r = es(s.verify(&x, Some(false), Some(true), None, label, ignore));
        // (with the identifier's own field left out of the digest, two algorithms of which one extends the other can agree)
        let agrees = jsn::derive(&good, o, &[&d.label], &ig).is_some_and(|(raw, dm)| cesr::matter_qb64(o, &raw) == es(s.qb64()).unwrap_or_default() && (!good.contains_key("v") || good["v"] == dm["v"]));
        c.check(matches!(r, Ok(true)) == agrees, "other-algorithm-verifies", || format!("{o} for {said}, expected {agrees}"));
        // a digest by another algorithm is right for the content, but not what the document carries
        let (s2, _) = embed(&d, o);
        let s2 = Saider::new_with_qb64(&s2).must("saider");
        let r = es(s2.verify(&x, Some(true), None, None, label, ignore));
        c.check(!matches!(r, Ok(true)), "foreign-identifier-verifies-prefixed", || format!("{o} for {said}"));
        c.evn("detected", 2);
    }
    c.sample(|| format!("{said} {}", clip(&good_text)));
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "an execution is one random document with a label, ignored fields and a digest code, derived by the library and by the reference; distinct by (code, label, resulting document)",
            sections: vec![sec("derive", 24_000, 200_000, c13_derive), sec("refuse", 1_800, 10_000, c13_refuse)],
            require: vec![("versioned", 1_000), ("unversioned", 1_000), ("ignored fields", 500), ("verified", 30_000), ("refused", 5_000)],
            assumptions: vec!["serde_json prints compact JSON; digest crates as in C12; a version field, when present, is the first field"],
            termination: false,
        },
        Property {
            id: "C14",
            rule: "an execution is one changed document verified against the identifier of the original, with the reference verdict as expectation; distinct by (identifier, changed document)",
            sections: vec![sec("mutate", 7_500, 120_000, c14_mutate)],
            require: vec![("detected", 50_000), ("verified", 500), ("change: fields-reordered", 300), ("change: field-renamed", 300), ("change: ignored-field", 300), ("change: version-field", 300), ("change: labelled-field", 1_000)],
            assumptions: vec!["as C13; digests do not collide"],
            termination: false,
        },
    ]
}
