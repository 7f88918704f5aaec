//! C23: structured data.
use crate::fw::*;
use crate::jsn::{self, build, dump, V};
use crate::types::es;
use cesride::data::{dat, Array, Object};
use cesride::{Sadder, Serder};
use serde_json::{json, Map, Value as J};
use std::collections::HashMap;
use std::convert::TryFrom;

/// JSON text of a document in a random spelling: white space, escapes, number forms
fn spell(r: &mut Rng, j: &J, out: &mut String) {
    let ws = |r: &mut Rng, out: &mut String| {
        if r.chance(1, 6) {
            for _ in 0..r.range(1, 3) {
                out.push(*r.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    };
    ws(r, out);
    match j {
        J::String(s) => spell_string(r, s, out),
        J::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                spell(r, x, out);
            }
            ws(r, out);
            out.push(']');
        }
        J::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(r, out);
                spell_string(r, k, out);
                ws(r, out);
                out.push(':');
                spell(r, x, out);
            }
            ws(r, out);
            out.push('}');
        }
        j => out.push_str(&dump(j)),
    }
    ws(r, out);
}

fn spell_string(r: &mut Rng, s: &str, out: &mut String) {
    out.push('"');
    for ch in s.chars() {
        let must = ch < ' ' || ch == '"' || ch == '\\';
        if !must && r.chance(7, 8) {
            out.push(ch);
            continue;
        }
        let short = match ch {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            _ => None,
        };
        if let (Some(e), true) = (short, r.bool()) {
            out.push_str(e);
            continue;
        }
        let mut b = [0u16; 2];
        for u in ch.encode_utf16(&mut b) {
            if r.bool() {
                out.push_str(&format!("\\u{u:04x}"));
            } else {
                out.push_str(&format!("\\u{u:04X}"));
            }
        }
    }
    out.push('"');
}

/// the library value holds exactly this document
fn holds(c: &mut Case, v: &V, j: &J, at: &str) {
    let bad = |what: &str| format!("{what} at {at}: {} holds {}", clip(&dump(j)), clip(&format!("{v:?}")));
    match (j, v) {
        (J::Null, V::Null) => {}
        (J::Bool(b), V::Boolean(x)) => {
            c.check(b == x, "boolean", || bad("boolean"));
        }
        (J::Number(n), V::Number(_)) => {
            if let Some(i) = n.as_i64() {
                c.check(es(v.to_i64()) == Ok(i), "integer", || bad("integer"));
                c.check(v.to_f64().is_err(), "integer-as-float", || bad("integer"));
            } else if n.as_u64().is_some() {
                c.check(v.to_i64().is_err() && v.to_f64().is_err(), "large-integer", || bad("large integer"));
                c.ev("integers over i64");
            } else {
                let f = n.as_f64().unwrap();
                c.check(v.to_f64().map(|x| x.to_bits()).ok() == Some(f.to_bits()), "float", || bad("float"));
                c.check(v.to_i64().is_err(), "float-as-integer", || bad("float"));
            }
            c.ev("numbers");
        }
        (J::String(s), V::String(x)) => {
            c.check(s == x && es(v.to_string()).as_ref() == Ok(s), "string", || bad("string"));
            c.ev("strings");
        }
        (J::Array(a), V::Array(x)) => {
            if c.check(a.len() == x.len(), "array-length", || bad("array")) {
                for (i, (p, q)) in a.iter().zip(x).enumerate() {
                    holds(c, q, p, &format!("{at}/{i}"));
                }
            }
        }
        (J::Object(o), V::Object(x)) => {
            let (k1, k2): (Vec<_>, Vec<_>) = (o.keys().collect(), x.keys().collect());
            if c.check(k1 == k2, "object-keys", || bad("object")) {
                for ((k, p), q) in o.iter().zip(x.values()) {
                    holds(c, q, p, &format!("{at}/{k}"));
                    c.check(&v[k.as_str()] == q, "lookup", || bad("lookup"));
                }
            }
        }
        _ => c.fail("kind-changed", bad("kind")),
    }
}

/// conversions to a type other than the stored one are refused
fn conversions(c: &mut Case, v: &V, j: &J) {
    let k = match j {
        J::Null => 0,
        J::Bool(_) => 1,
        J::String(_) => 2,
        J::Number(n) if n.is_f64() => 4,
        J::Number(_) => 3,
        J::Array(_) => 5,
        J::Object(_) => 6,
    };
    let ctx = || clip(&dump(j));
    let got = [v.to_bool().is_ok(), v.to_string().is_ok(), v.to_i64().is_ok(), v.to_f64().is_ok(), v.to_vec().is_ok(), v.to_map().is_ok()];
    let fits = j.as_u64().map(|u| u <= i64::MAX as u64).unwrap_or(true);
    let want = [k == 1, k == 2, k == 3 && fits, k == 4, k == 5, k == 6];
    c.check(got == want, "conversions", || format!("{got:?} want {want:?} {}", ctx()));
    let tried = [
        bool::try_from(v).is_ok(),
        String::try_from(v).is_ok(),
        Vec::<V>::try_from(v).is_ok(),
        Object::try_from(v).is_ok(),
    ];
    c.check(tried == [k == 1, k == 2, k == 5, k == 6], "try-conversions", || format!("{tried:?} {}", ctx()));
    let (i, f) = (es(i64::try_from(v)), es(f64::try_from(v)));
    match k {
        3 if fits => {
            c.check(i == Ok(j.as_i64().unwrap()) && f == Ok(j.as_i64().unwrap() as f64), "number-conversion", || format!("{i:?} {f:?} {}", ctx()));
        }
        3 => {
            c.check(i.is_err(), "number-conversion", || format!("{i:?} {}", ctx()));
        }
        4 => {
            c.check(f.map(f64::to_bits) == Ok(j.as_f64().unwrap().to_bits()), "number-conversion", ctx);
        }
        _ => {
            c.check(i.is_err() && f.is_err(), "number-conversion", || format!("{i:?} {f:?} {}", ctx()));
        }
    }
    c.ev("conversions judged");
    match j {
        J::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                conversions(c, &v[i], x);
            }
        }
        J::Object(o) => {
            for (i, (k, x)) in o.iter().enumerate() {
                conversions(c, &v[k.as_str()], x);
                c.check(v[i] == v[k.as_str()], "positional-lookup", ctx);
            }
        }
        _ => {}
    }
}

fn has_float(j: &J) -> bool {
    match j {
        J::Number(n) => n.is_f64(),
        J::Array(a) => a.iter().any(has_float),
        J::Object(o) => o.values().any(has_float),
        _ => false,
    }
}

fn deep(r: &mut Rng, n: usize) -> J {
    let mut j = jsn::value(r, 1);
    for _ in 0..n {
        j = if r.bool() { json!([j]) } else { json!({ jsn::key(r): j }) };
        if r.chance(1, 4) {
            if let J::Array(a) = &mut j {
                a.insert(0, J::Null);
            }
        }
    }
    j
}

pub fn c23_json(c: &mut Case) {
    let j = match c.rng.below(12) {
        0 => jsn::number(&mut c.rng),
        1 => json!(jsn::string(&mut c.rng)),
        2 if c.rng.chance(1, 4) => {
            let n = c.rng.range(20, 110);
            deep(&mut c.rng, n)
        }
        3 => jsn::value(&mut c.rng, 4),
        _ => {
            let max = if c.rng.chance(1, 30) { 200 } else { 9 };
            J::Object(jsn::object(&mut c.rng, 4, max))
        }
    };
    let text = dump(&j);
    let ctx = || clip(&text);
    let Some(v) = c.total("from document", ctx, || V::from(&j)) else { return };
    holds(c, &v, &j, "");
    conversions(c, &v, &j);
    let t = c.total("to_json", ctx, || es(v.to_json()));
    c.check(t == Some(Ok(text.clone())), "text", || format!("got {} want {}", clip(&format!("{t:?}")), clip(&text)));
    c.check(format!("{v}") == text, "display", ctx);
    c.check(v == build(&j), "built-differs", ctx);
    // the same document in another spelling
    let mut s = String::new();
    spell(&mut c.rng, &j, &mut s);
    let back: J = serde_json::from_str(&s).expect("spelled document parses");
    let w = V::from(&back);
    if has_float(&j) {
        c.check(es(w.to_json()) == Ok(dump(&back)), "respelled-text", || clip(&s));
    } else {
        c.check(w == v, "respelled-differs", || format!("{} from {}", clip(&format!("{w:?}")), clip(&s)));
        c.check(es(w.to_json()) == Ok(text.clone()), "respelled-text", || clip(&s));
        c.ev("respelled documents");
    }
    let u = v.clone();
    c.check(u == v && es(u.to_json()) == Ok(text.clone()), "clone", ctx);
    c.evn("bytes of JSON", text.len() as u64);
    c.sample(|| clip(&text));
    c.seen(&text);
}

pub fn c23_strings(c: &mut Case) {
    // every character of the Basic Multilingual Plane and samples above, in blocks
    let from = c.index as u32 * 64;
    let mut s = String::new();
    for u in from..from + 64 {
        let u = if u < 0x11_0000 { u } else { 0x10_ffff - (u & 0xffff) };
        if let Some(ch) = char::from_u32(u) {
            s.push(ch);
        }
    }
    let m: Map<String, J> = [(s.clone(), json!(s))].into_iter().collect();
    let j = J::Object(m);
    let v = build(&j);
    let t = v.to_json().must("to_json");
    let b: Result<J, _> = serde_json::from_str(&t);
    c.check(b.as_ref().ok() == Some(&j), "characters", || clip(&t));
    c.check(t == dump(&j), "characters-text", || clip(&t));
    let mut sp = String::new();
    spell(&mut c.rng, &j, &mut sp);
    let back: J = serde_json::from_str(&sp).expect("spelled document parses");
    c.check(V::from(&back) == v, "characters-respelled", || clip(&sp));
    c.evn("characters", s.chars().count() as u64);
    c.seen(&s);
}

/// floats through text: the value written is the value read
pub fn c23_floats(c: &mut Case) {
    for _ in 0..16 {
        let f = match c.rng.below(6) {
            0 => f64::from_bits(c.rng.u64()),
            1 => (c.rng.u64() >> 11) as f64 / (1u64 << c.rng.below(60)) as f64,
            2 => c.rng.below(1_000_000) as f64 / 100.0,
            3 => f64::from_bits(1u64 << c.rng.below(63)),
            4 => c.rng.u64() as i64 as f64,
            _ => c.rng.u32() as f64 * 1e-3,
        };
        if !f.is_finite() {
            continue;
        }
        let v = V::from(f);
        let t = v.to_json().must("to_json");
        // written exactly
        c.check(t.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()), "float-written", || format!("{f:e} {t}"));
        c.check(v.to_f64().map(f64::to_bits).ok() == Some(f.to_bits()), "float-held", || t.clone());
        c.ev("floats written");
        // read exactly
        let j: J = serde_json::from_str(&t).expect("number parses");
        let w = if c.rng.bool() {
            V::from(&j)
        } else {
            // through an event and its bytes
            let d = dat!({"v": "KERI10JSON000000_", "d": "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "f": f});
            let s = es(Serder::new_with_ked(&d, None, None)).must("event");
            let s = es(Serder::new_with_raw(&s.raw())).must("event from bytes");
            c.ev("floats read from events");
            s.ked()["f"].clone()
        };
        let read = w.to_f64().must("float");
        if read.to_bits() != f.to_bits() {
            // held as the JSON reader delivered it? then the reader is to blame
            let reader = j.as_f64().map(f64::to_bits) == Some(read.to_bits());
            c.fail(if reader { "float-misread-by-json-reader" } else { "float-read" }, format!("{t} read as {read:e}"));
        }
        c.ev("floats read");
        c.seen(&f.to_bits());
    }
}

pub fn c23_edits(c: &mut Case) {
    let mut j = J::Object(jsn::object(&mut c.rng, 2, 5));
    let mut v = build(&j);
    let mut log = vec![dump(&j)];
    let mut frozen: Vec<(V, String)> = vec![];
    for _ in 0..c.rng.range(4, 24) {
        if c.rng.chance(1, 6) {
            frozen.push((v.clone(), dump(&j)));
        }
        // walk to some container
        let (mut jc, mut vc, mut path) = (&mut j, &mut v, String::new());
        for _ in 0..c.rng.below(3) {
            let n = match &*jc {
                J::Object(o) => o.len(),
                J::Array(a) => a.len(),
                _ => 0,
            };
            if n == 0 {
                break;
            }
            let i = c.rng.below(n);
            let into = match &*jc {
                J::Object(o) => o.values().nth(i).map(|x| x.is_array() || x.is_object()),
                J::Array(a) => a.get(i).map(|x| x.is_array() || x.is_object()),
                _ => None,
            };
            if into != Some(true) {
                break;
            }
            match jc {
                J::Object(o) => {
                    let k = o.keys().nth(i).unwrap().clone();
                    path.push_str(&format!("/{k}"));
                    vc = if c.rng.bool() { &mut vc[k.as_str()] } else { &mut vc[i] };
                    jc = o.get_mut(&k).unwrap();
                }
                J::Array(a) => {
                    path.push_str(&format!("/{i}"));
                    vc = &mut vc[i];
                    jc = &mut a[i];
                }
                _ => {}
            }
        }
        let new = jsn::value(&mut c.rng, 1);
        let op;
        match jc {
            J::Object(o) => {
                let existing = if o.is_empty() { None } else { o.keys().nth(c.rng.below(o.len())).cloned() };
                match (c.rng.below(6), existing) {
                    (0 | 1, Some(k)) => {
                        op = format!("{path}[{k:?}] = {new}");
                        vc[k.as_str()] = build(&new);
                        o[&k] = new;
                        c.ev("replaced");
                    }
                    (2, Some(k)) => {
                        op = format!("{path} remove {k:?}");
                        if let V::Object(x) = vc {
                            let got = x.shift_remove(&k);
                            c.check(got == o.get(&k).map(build), "removed-value", || format!("{log:?} {op}"));
                        }
                        o.shift_remove(&k);
                        c.ev("removed");
                    }
                    (3, Some(k)) => {
                        let i = o.keys().position(|x| *x == k).unwrap();
                        op = format!("{path}[{i}] = {new}");
                        vc[i] = build(&new);
                        o[&k] = new;
                        c.ev("replaced by position");
                    }
                    (4, _) => {
                        // touching a missing label creates it
                        let mut k = jsn::key(&mut c.rng);
                        while o.contains_key(&k) {
                            k.push('~');
                        }
                        op = format!("{path} touch {k:?}");
                        let x = &mut vc[k.as_str()];
                        c.check(*x == V::Null, "touched", || op.clone());
                        o.insert(k, J::Null);
                        c.ev("touched");
                    }
                    _ => {
                        let k = jsn::key(&mut c.rng);
                        op = format!("{path}[{k:?}] := {new}");
                        vc[k.as_str()] = build(&new);
                        o.insert(k, new);
                        c.ev("inserted");
                    }
                }
            }
            J::Array(a) => {
                if a.is_empty() || c.rng.chance(1, 3) {
                    let i = c.rng.below(a.len() + 1);
                    op = format!("{path} insert {i} {new}");
                    if let V::Array(x) = vc {
                        x.insert(i, build(&new));
                    }
                    a.insert(i, new);
                    c.ev("array inserted");
                } else if c.rng.chance(1, 3) {
                    let i = c.rng.below(a.len());
                    op = format!("{path} remove {i}");
                    if let V::Array(x) = vc {
                        x.remove(i);
                    }
                    a.remove(i);
                    c.ev("array removed");
                } else {
                    let i = c.rng.below(a.len());
                    op = format!("{path}[{i}] = {new}");
                    vc[i] = build(&new);
                    a[i] = new;
                    c.ev("array replaced");
                }
            }
            _ => continue,
        }
        log.push(op);
        let want = dump(&j);
        if !c.check(es(v.to_json()) == Ok(want.clone()), "edit", || clip(&format!("{log:?} got {:?} want {want}", v.to_json()))) {
            return;
        }
    }
    // iteration sees every entry once, in order
    if let (Ok(m), J::Object(o)) = (v.to_map(), &j) {
        let got: Vec<(String, String)> = m.iter().map(|(k, x)| (k.clone(), x.to_json().unwrap_or_default())).collect();
        let want: Vec<(String, String)> = o.iter().map(|(k, x)| (k.clone(), dump(x))).collect();
        c.check(got == want, "iteration", || clip(&format!("{log:?}")));
    }
    for (f, t) in frozen {
        c.check(es(f.to_json()) == Ok(t), "earlier-copy-changed", || clip(&format!("{log:?}")));
        c.ev("earlier copies compared");
    }
    holds(c, &v, &j, "");
    c.sample(|| clip(&format!("{log:?}")));
    c.seen(&log);
}

pub fn c23_literals(c: &mut Case) {
    let (n, s) = (c.rng.u32(), jsn::string(&mut c.rng));
    let i = c.rng.u64() as i64;
    let f = c.rng.u32() as f64 / 8.0;
    let b = c.rng.bool();
    let g = Some(f32::from_bits(c.rng.u32())).filter(|g| g.is_finite()).unwrap_or(0.1);
    let inner = dat!({ "x": i, "y": [b"a"[0], n], "z": {} });
    let v = dat!({ "s": &s, "n": n, "null": null, "t": true, "f": false, "list": [null, true, [], {"a": 1}, &s, f], "inner": (inner.clone()), (s.as_str()): i });
    let mut w = json!({ "s": s, "n": n, "null": null, "t": true, "f": false, "list": [null, true, [], {"a": 1}, s, f], "inner": {"x": i, "y": [97, n], "z": {}} });
    w[&s] = json!(i);
    c.check(es(v.to_json()) == Ok(dump(&w)), "literal", || format!("{v} want {w}"));
    c.check(v["inner"] == inner, "literal-inner", || format!("{v}"));
    let small = [
        (V::from(i as i8), json!(i as i8)),
        (V::from(i as i16), json!(i as i16)),
        (V::from(i as i32), json!(i as i32)),
        (V::from(i), json!(i)),
        (V::from(n as u8), json!(n as u8)),
        (V::from(n as u16), json!(n as u16)),
        (V::from(n), json!(n)),
        (V::from(f), json!(f)),
        (V::from(f as f32), json!(f as f32 as f64)),
        (V::from(g), json!(g as f64)),
        (V::from(s.as_str()), json!(s)),
        (V::from(&s), json!(s)),
        (V::Boolean(b), json!(b)),
    ];
    for (v, j) in &small {
        c.check(es(v.to_json()) == Ok(dump(j)), "scalar", || format!("{v} want {j}"));
        holds(c, v, j, "");
    }
    let a: Array = small.iter().map(|x| x.0.clone()).collect();
    c.check(es(V::from(a.as_slice()).to_json()) == Ok(dump(&J::Array(small.iter().map(|x| x.1.clone()).collect()))), "from-slice", || format!("{a:?}"));
    let mut im = Object::new();
    let mut hm: HashMap<String, V> = HashMap::new();
    let mut jm = Map::new();
    let mut small: Vec<(V, J)> = small.into_iter().collect();
    for x in [J::Null, json!([]), json!({}), json!("")] {
        small.push((build(&x), x));
    }
    for (v, j) in small {
        let k = jsn::string(&mut c.rng);
        im.insert(k.clone(), v.clone());
        hm.insert(k.clone(), v);
        jm.insert(k, j);
    }
    c.check(es(V::from(&im).to_json()) == Ok(dump(&J::Object(jm.clone()))), "from-map", || format!("{im:?}"));
    // a hash map has no order; the entries are kept
    let got: Option<Map<String, J>> = V::from(&hm).to_json().ok().and_then(|t| serde_json::from_str(&t).ok());
    c.check(got.map(|g| g.len() == jm.len() && g.keys().all(|k| jm.contains_key(k))) == Some(true) && V::from(&hm).to_map().map(|m| m.len() == hm.len() && m.iter().all(|(k, v)| hm.get(k) == Some(v))).unwrap_or(false), "from-hash-map", || format!("{hm:?}"));
    c.ev("literals");
    c.seen(&(n, i, s));
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "an execution is one random document through every conversion and another spelling, one float through text, or one history of edits compared step by step with a model; distinct by document or history",
        sections: vec![sec("json", 48_000, 300_000, c23_json), sec("strings", 2_000, 17_408, c23_strings), sec("floats", 20_000, 500_000, c23_floats), sec("edits", 40_000, 250_000, c23_edits), sec("literals", 8_000, 30_000, c23_literals)],
        require: vec![("strings", 20_000), ("numbers", 20_000), ("integers over i64", 200), ("respelled documents", 2_000), ("characters", 60_000), ("floats read", 30_000), ("inserted", 5_000), ("removed", 2_000), ("replaced", 4_000), ("array removed", 300), ("touched", 2_000), ("earlier copies compared", 3_000), ("literals", 1_000), ("conversions judged", 50_000)],
        assumptions: vec!["serde_json parses the spelled documents (its float reader is judged separately)"],
        termination: false,
    }]
}
