//! C15: identifier prefixes and their inception events.
use crate::cesr::{self, matter_qb64};
use crate::fw::*;
use crate::jsn::{self, build, dump};
use crate::p_digest::DIGEST_CODES;
use crate::types::es;
use cesride::{Matter, Prefixer};
use serde_json::{json, Map, Value as J};

pub const KEY_CODES: [&str; 6] = ["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
pub const N_CODES: [&str; 3] = ["B", "1AAA", "1AAI"];

pub fn all_codes() -> Vec<&'static str> {
    KEY_CODES.iter().chain(DIGEST_CODES.iter()).copied().collect()
}

pub fn key_text(r: &mut Rng, code: &str) -> String {
    let n = cesr::mcode(code).unwrap().raw.unwrap();
    let raw = r.raw(n);
    matter_qb64(code, &raw)
}

fn empty(v: Option<&J>) -> bool {
    match v {
        None | Some(J::Null) => true,
        Some(J::String(s)) => s.is_empty(),
        Some(J::Array(a)) => a.is_empty(),
        Some(J::Object(o)) => o.is_empty(),
        _ => false,
    }
}

fn incepting(m: &Map<String, J>) -> bool {
    matches!(m.get("t").and_then(|t| t.as_str()), Some("icp" | "dip" | "vcp"))
}

fn single_key(m: &Map<String, J>) -> Option<String> {
    let k = m.get("k")?.as_array()?;
    if k.len() != 1 {
        return None;
    }
    Some(k[0].as_str()?.to_string())
}

/// reference derivation: the prefix text, or None when there is none
pub fn reference(m: &Map<String, J>, code: &str) -> Option<String> {
    if !incepting(m) {
        return None;
    }
    if KEY_CODES.contains(&code) {
        let k = single_key(m)?;
        let d = cesr::matter_decode(k.as_bytes())?;
        if d.code != code || d.size != k.len() {
            return None;
        }
        if N_CODES.contains(&code) && !(empty(m.get("n")) && empty(m.get("b")) && empty(m.get("a"))) {
            return None;
        }
        return Some(k);
    }
    if !DIGEST_CODES.contains(&code) {
        return None;
    }
    m.get("v")?;
    let (raw, _) = jsn::derive(m, code, &["i", "d"], &[])?;
    Some(matter_qb64(code, &raw))
}

/// a random inception-like event; `code` is the derivation it is made for
pub fn inception(r: &mut Rng, code: &str) -> Map<String, J> {
    let mut f: Vec<(String, J)> = vec![];
    f.push(("t".into(), json!(*r.pick(&["icp", "icp", "dip", "vcp"]))));
    f.push(("d".into(), json!("")));
    f.push(("i".into(), json!("")));
    f.push(("s".into(), json!("0")));
    f.push(("kt".into(), r.pick(&[json!("1"), json!("2"), json!(["1/2", "1/2"]), json!(1)]).clone()));
    let basic = KEY_CODES.contains(&code);
    let nk = if basic { if r.chance(1, 8) { r.below(4) } else { 1 } } else { r.below(4) };
    let mut keys = vec![];
    for i in 0..nk {
        let kc = if basic && (i > 0 || r.chance(9, 10)) { code } else { *r.pick(&KEY_CODES) };
        keys.push(json!(key_text(r, kc)));
    }
    f.push(("k".into(), J::Array(keys)));
    f.push(("nt".into(), json!("0")));
    let lean = N_CODES.contains(&code) && r.chance(3, 4);
    let none = |r: &mut Rng| r.pick(&[json!([]), json!(""), json!([]), J::Null, json!({})]).clone();
    let lst = |r: &mut Rng| {
        let n = r.range(1, 3);
        J::Array((0..n).map(|_| {
            let raw = r.raw(32);
            json!(matter_qb64("E", &raw))
        }).collect())
    };
    for k in ["n", "b", "a"] {
        let v = if lean || r.chance(1, 3) { none(r) } else { lst(r) };
        if !r.chance(1, 8) {
            f.push((k.into(), v));
        }
        if k == "n" {
            f.push(("bt".into(), json!("0")));
            f.push(("c".into(), r.pick(&[json!([]), json!(["EO"])]).clone()));
        }
    }
    // the delegator or the issuer, which the event names besides itself
    for (k, n) in [("di", 2), ("ii", 4)] {
        if r.chance(1, n) {
            let kc = *r.pick(&["E", "D", "B", "I"]);
            f.push((k.into(), if r.chance(1, 8) { json!("") } else { json!(key_text(r, kc)) }));
        }
    }
    if r.chance(1, 3) {
        f.push((jsn::key(r), jsn::value(r, 2)));
    }
    if r.chance(1, 5) {
        r.shuffle(&mut f);
    }
    let mut m = Map::new();
    if r.chance(19, 20) {
        m.insert("v".into(), json!(*r.pick(&["KERI10JSON000000_", "KERI10JSONffffff_", "ACDC10JSON000010_"])));
    }
    for (k, v) in f {
        m.entry(k).or_insert(v);
    }
    for k in ["d", "i"] {
        if r.chance(1, 12) {
            m.shift_remove(k);
        }
    }
    m
}

fn ctx(code: &str, m: &Map<String, J>) -> String {
    format!("{code} {}", clip(&dump(&J::Object(m.clone()))))
}

pub fn c15_derive(c: &mut Case) {
    let codes = all_codes();
    let code = codes[c.index as usize % codes.len()];
    let mut m = inception(&mut c.rng, code);
    if c.rng.chance(1, 12) {
        m["t"] = json!(*c.rng.pick(&["rot", "ixn", "drt", "rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vrt", "iss", "rev", "bis", "brv", "", "ICP", "icp "]));
    }
    let want = reference(&m, code);
    let v = build(&J::Object(m.clone()));
    let before = v.to_json().must("json");
    let r = c.total("new_with_ked", || ctx(code, &m), || es(Prefixer::new_with_ked(&v, None, Some(code))));
    let Some(r) = r else { return };
    let got = r.as_ref().ok().map(|p| p.qb64().unwrap_or_default());
    c.check(got == want, if want.is_some() { "derivation" } else { "underivable-accepted" }, || format!("got {r:?} want {want:?} {}", ctx(code, &m)));
    c.check(v.to_json().must("json") == before, "event-changed", || ctx(code, &m));
    c.ev(if want.is_some() { "derived" } else { "derivation refused" });
    // allowed codes
    let r2 = es(Prefixer::new_with_ked(&v, Some(&[code, "E"]), Some(code)));
    c.check(r2.as_ref().ok().map(|p| p.qb64().unwrap_or_default()) == want, "allowed-list", || ctx(code, &m));
    let others: Vec<&str> = codes.iter().copied().filter(|x| *x != code).collect();
    c.check(es(Prefixer::new_with_ked(&v, Some(&others), Some(code))).is_err(), "disallowed-code-accepted", || ctx(code, &m));
    // nothing but the code itself allows it
    let near = [String::new(), code[..1].to_string(), code[..code.len() / 2].to_string(), format!("{code}A"), code.to_lowercase(), code[code.len() - 1..].to_string()];
    let near: Vec<&str> = near.iter().map(|s| s.as_str()).filter(|s| *s != code).collect();
    c.check(es(Prefixer::new_with_ked(&v, Some(&near), Some(code))).is_err(), "disallowed-code-accepted", || format!("{near:?} {}", ctx(code, &m)));
    if let Some(pre) = &want {
        // embedded, then found from the event alone
        m.insert("i".into(), json!(pre));
        if DIGEST_CODES.contains(&code) {
            // a self-addressing event carries the prefix in both fields
            m.insert("d".into(), json!(pre));
        }
        let want2 = reference(&m, code);
        if let Some(sm) = jsn::sized(&m) {
            m = sm;
        }
        let v = build(&J::Object(m.clone()));
        let p = es(Prefixer::new_with_ked(&v, None, None));
        c.check(p.as_ref().ok().map(|p| p.qb64().unwrap_or_default()) == want2, "derivation-from-embedded", || format!("got {p:?} want {want2:?} {}", ctx(code, &m)));
        if let (Ok(p), true) = (p, want2.is_some()) {
            let emb = want2.as_ref() == Some(pre);
            for prefixed in [None, Some(false), Some(true)] {
                let r = c.total("verify", || ctx(code, &m), || es(p.verify(&v, prefixed)));
                let exp = prefixed != Some(true) || emb;
                c.check(matches!(r, Some(Ok(x)) if x == exp), "own-event-refused", || format!("{r:?} prefixed {prefixed:?} {}", ctx(code, &m)));
                c.ev("own event verified");
            }
        }
    }
    c.sample(|| format!("{want:?} <- {}", ctx(code, &m)));
    c.seen(&(code, dump(&J::Object(m.clone()))));
}

/// reference verdict for verify()
fn verdict(m: &Map<String, J>, pre: &str, code: &str, prefixed: bool) -> bool {
    if !incepting(m) {
        return false;
    }
    if prefixed && m.get("i").and_then(|x| x.as_str()) != Some(pre) {
        return false;
    }
    reference(m, code).as_deref() == Some(pre)
}

pub fn c15_verify(c: &mut Case) {
    let codes = all_codes();
    let code = codes[c.index as usize % codes.len()];
    let mut m = inception(&mut c.rng, code);
    let mut tries = 0;
    while reference(&m, code).is_none() {
        m = inception(&mut c.rng, code);
        tries += 1;
        if tries > 200 {
            return;
        }
    }
    m.entry("i").or_insert(json!(""));
    m.entry("d").or_insert(json!(""));
    let pre = reference(&m, code).unwrap();
    m["i"] = json!(pre);
    if DIGEST_CODES.contains(&code) {
        m["d"] = json!(pre);
    }
    if let Some(s) = jsn::sized(&m) {
        m = s;
    }
    let p = Prefixer::new_with_qb64(&pre).must("prefixer");
    let judge = |c: &mut Case, what: &str, p: &Prefixer, pcode: &str, ptext: &str, m: &Map<String, J>| {
        let v = build(&J::Object(m.clone()));
        for prefixed in [false, true] {
            let want = verdict(m, ptext, pcode, prefixed);
            let r = c.total("verify", || ctx(pcode, m), || es(p.verify(&v, Some(prefixed))));
            let got = matches!(r, Some(Ok(true)));
            c.check(got == want, if want { "refused" } else { "change-not-detected" }, || format!("{what} prefixed {prefixed} got {r:?} prefix {ptext} {}", ctx(pcode, m)));
            c.ev(if want { "verified" } else { "detected" });
        }
        c.seen(&(ptext, dump(&J::Object(m.clone()))));
    };
    judge(c, "intact", &p, code, &pre, &m);
    for _ in 0..8 {
        let mut x = m.clone();
        let what = match c.rng.below(8) {
            0 => {
                let k = *c.rng.pick(&["n", "b", "a", "k", "kt", "t", "i", "d", "s"]);
                let v = jsn::value(&mut c.rng, 1);
                x.insert(k.into(), v);
                "field-replaced"
            }
            1 => {
                let k = *c.rng.pick(&["n", "b", "a", "k", "kt", "t", "i", "d", "s", "v"]);
                x.shift_remove(k);
                "field-dropped"
            }
            2 => {
                // one more key, or another key
                let kc = if c.rng.bool() && KEY_CODES.contains(&code) { code } else { *c.rng.pick(&KEY_CODES) };
                let t = key_text(&mut c.rng, kc);
                if let Some(J::Array(a)) = x.get_mut("k") {
                    match c.rng.below(3) {
                        0 => a.push(json!(t)),
                        1 => a.insert(0, json!(t)),
                        _ => *a = vec![json!(t)],
                    }
                }
                "keys-changed"
            }
            3 => {
                x["t"] = json!(*c.rng.pick(&["icp", "dip", "vcp", "rot", "ixn"]));
                "kind-changed"
            }
            4 => {
                let t = key_text(&mut c.rng, "E");
                let k = *c.rng.pick(&["n", "b", "a"]);
                x.insert(k.into(), json!([t]));
                "seal-added"
            }
            _ => jsn::mutate_map(&mut c.rng, &mut x, &["v"]),
        };
        judge(c, what, &p, code, &pre, &x);
    }
    // another prefix
    for _ in 0..4 {
        let oc = if c.rng.bool() { code } else { *c.rng.pick(&codes) };
        let mut raw = p.raw();
        raw.resize(cesr::mcode(oc).unwrap().raw.unwrap(), 0);
        if oc == code || c.rng.bool() {
            let i = c.rng.below(raw.len() * 8);
            raw[i / 8] ^= 1 << (i % 8);
        }
        let t = matter_qb64(oc, &raw);
        let o = Prefixer::new_with_qb64(&t).must("prefixer");
        judge(c, "other-prefix", &o, oc, &t, &m);
    }
    // the same event under every other derivation
    for oc in &codes {
        if let Some(t) = reference(&m, oc) {
            let o = Prefixer::new_with_qb64(&t).must("prefixer");
            judge(c, "other-derivation", &o, oc, &t, &m);
        }
    }
}

pub fn c15_shapes(c: &mut Case) {
    // things that are no event, or lack what the derivation needs
    let codes = all_codes();
    let code = codes[c.index as usize % codes.len()];
    let j = match c.rng.below(3) {
        0 => jsn::value(&mut c.rng, 2),
        1 => J::Object(jsn::object(&mut c.rng, 2, 6)),
        _ => {
            let mut m = inception(&mut c.rng, code);
            let k = *c.rng.pick(&["v", "t", "k", "i", "n", "d", "b", "a"]);
            let v = jsn::value(&mut c.rng, 1);
            m.insert(k.into(), v);
            J::Object(m)
        }
    };
    let v = build(&j);
    let want = j.as_object().and_then(|m| reference(m, code));
    for k in [Some(code), None] {
        let r = c.total("new_with_ked", || dump(&j), || es(Prefixer::new_with_ked(&v, None, k)));
        if k.is_some() {
            if let Some(r) = r {
                let got = r.as_ref().ok().map(|p| p.qb64().unwrap_or_default());
                c.check(got == want, "shape", || format!("got {r:?} want {want:?} {code} {}", dump(&j)));
            }
        }
    }
    let t = key_text(&mut c.rng, code);
    let p = Prefixer::new_with_qb64(&t).must("prefixer");
    for prefixed in [None, Some(true)] {
        let r = c.total("verify", || dump(&j), || es(p.verify(&v, prefixed)));
        let w = j.as_object().map(|m| verdict(m, &t, code, prefixed == Some(true))).unwrap_or(false);
        c.check(matches!(r, Some(Ok(true))) == w, "shape-verified", || dump(&j));
    }
    c.ev("odd shapes");
    c.seen(&dump(&j));
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C15",
        rule: "an execution is one (event, derivation code or prefix) derived or verified and compared with the reference derivation; distinct by that pair",
        sections: vec![sec("derive", 30_000, 300_000, c15_derive), sec("verify", 12_500, 120_000, c15_verify), sec("shapes", 15_000, 200_000, c15_shapes)],
        require: vec![("derived", 2_000), ("derivation refused", 500), ("own event verified", 3_000), ("verified", 4_000), ("detected", 20_000), ("odd shapes", 2_000)],
        assumptions: vec!["digests as in C12; keys in events are exact encodings; a version field is the first field"],
        termination: false,
    }]
}
