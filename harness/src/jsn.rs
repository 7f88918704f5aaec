//! Random JSON documents, reference derivations over them, and conversion to the library's values.
use crate::fw::Rng;
use serde_json::{json, Map, Value as J};

pub type V = cesride::data::Value;

/// library value of a document, built field by field (not through the conversion under test)
pub fn build(j: &J) -> V {
    use cesride::data::{Array, Object};
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Boolean(*b),
        J::Number(n) => match n.as_i64() {
            Some(i) => V::from(i),
            None => match n.as_f64() {
                Some(f) if n.is_f64() => V::from(f),
                _ => V::from(j), // integers over i64::MAX have no other door
            },
        },
        J::String(s) => V::from(s.as_str()),
        J::Array(a) => V::Array(a.iter().map(build).collect::<Array>()),
        J::Object(o) => {
            let mut m = Object::new();
            for (k, v) in o {
                m.insert(k.clone(), build(v));
            }
            V::Object(m)
        }
    }
}

pub const CHARS: &[char] = &[
    'a', 'b', 'z', 'A', 'Q', '0', '7', '-', '_', ' ', '.', ',', ':', '"', '\\', '/', '\n', '\t', '\r', '\u{0}', '\u{1f}', '\u{7f}',
    'é', 'ß', 'Ω', 'я', '中', '\u{2028}', '\u{feff}', '\u{fffd}', '😀', '𐍈', '{', '}', '[', ']', '#', '=', '+', '<', '&', '\'', '$', '%',
];

pub fn string(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => r.pick(&["true", "null", "0", "1", "-1", "1.0", "{}", "[]", "icp", "KERI10JSON000000_", "KERI10JSON0000fb_", "ACDC10JSONffffff_", "############################################", "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"]).to_string(),
        2 => {
            let n = r.range(1, 60);
            (0..n).map(|_| *r.pick(CHARS)).collect()
        }
        3 if r.chance(1, 6) => {
            let n = if r.chance(1, 40) { *r.pick(&[4097usize, 8193, 16_385, 65_537]) } else { r.range(100, 3000) };
            (0..n).map(|_| *r.pick(CHARS)).collect()
        }
        _ => {
            let n = r.range(1, 16);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}

pub fn key(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        let k = string(r);
        // a version field has a meaning of its own; documents that want one add it
        return if k == "v" { "w".into() } else { k };
    }
    r.pick(&["i", "s", "t", "p", "kt", "k", "nt", "n", "bt", "b", "c", "a", "x", "y", "name", "first-name", "z", "0", "10", "id", "issuer", "d2", "ri", "e", "r", "rd", "q", "dt", "u", "h", "di", "ii", "A", "br", "ba"]).to_string()
}

pub fn number(r: &mut Rng) -> J {
    match r.below(9) {
        0 => json!(0),
        1 => json!(r.u64() as i64),
        2 => json!(*r.pick(&[i64::MAX, i64::MIN, -1, 1, i64::MAX - 1, 255, 256, 65535, 65536, 1 << 53, (1 << 53) + 1])),
        3 => json!(*r.pick(&[u64::MAX, i64::MAX as u64 + 1, u64::MAX - 1])),
        4 => json!(*r.pick(&[0.5, -0.5, 1.0, 1.5e10, 0.1, 1e20, 1e21, 1e300, 1e-7, 5e-324, f64::MAX, f64::MIN_POSITIVE, -0.0, 123456789.123])),
        5 => json!(f64::from_bits(r.u64() & 0x7fef_ffff_ffff_ffff)),
        _ => json!(r.below(1000) as i64 - 300),
    }
}

pub fn value(r: &mut Rng, depth: usize) -> J {
    match r.below(if depth == 0 { 7 } else { 11 }) {
        0 => J::Null,
        1 => J::Bool(r.bool()),
        2 | 3 => number(r),
        4..=6 => J::String(string(r)),
        7 | 8 => {
            if r.chance(1, 60) {
                // long
                let n = *r.pick(&[9usize, 16, 17, 33, 41, 65, 100, 130, 257]);
                let n = if r.chance(1, 30) { *r.pick(&[513usize, 1025, 2049, 4097]) } else { n };
                return J::Array((0..n).map(|_| value(r, 0)).collect());
            }
            if r.chance(1, 120) {
                // deep
                let mut v = value(r, 0);
                for _ in 0..r.range(8, 60) {
                    v = if r.bool() { J::Array(vec![v]) } else { J::Object([(key(r), v)].into_iter().collect()) };
                }
                return v;
            }
            let n = r.below(5);
            J::Array((0..n).map(|_| value(r, depth - 1)).collect())
        }
        _ if r.chance(1, 100) => {
            // wide
            let n = *r.pick(&[9usize, 17, 33, 65, 130, 257]);
            let mut m = object(r, 0, 3);
            for i in 0..n {
                let k = if r.chance(1, 4) { key(r) } else { format!("k{i}") };
                m.insert(k, value(r, 0));
            }
            J::Object(m)
        }
        _ => {
            let mut m = object(r, depth - 1, 5);
            if r.chance(1, 4) {
                // a block with an identifier of its own
                let d = if r.chance(1, 6) { json!("") } else { json!(block_said(r)) };
                m = insert_at(&m, 0, "d", d);
            }
            J::Object(m)
        }
    }
}

fn block_said(r: &mut Rng) -> String {
    let raw = r.raw(32);
    crate::cesr::matter_qb64(r.pick(&["E", "F", "I"]), &raw)
}

/// a block as credentials have them: attributes, or edges to other credentials
pub fn block(r: &mut Rng, edges: bool) -> J {
    let mut m = Map::new();
    if r.chance(4, 5) {
        m.insert("d".into(), json!(block_said(r)));
    }
    if r.chance(1, 4) {
        m.insert("u".into(), json!("0AwjaDAE0qHcgNghkDaG7OY1"));
    }
    if edges {
        if r.bool() {
            m.insert("o".into(), json!(*r.pick(&["AND", "OR", "NAND", "AVG", "WAVG"])));
        }
        for _ in 0..r.range(1, 4) {
            let k = format!("{}{}", r.pick(&["qvi", "le", "auth", "e", "boss", "n", "s"]), r.pick(&["", "", "2"]));
            let e = match r.below(6) {
                0 => json!(block_said(r)),
                1 => {
                    let inner = r.chance(1, 3);
                    block(r, inner)
                },
                _ => {
                    let mut e = Map::new();
                    e.insert("n".into(), json!(block_said(r)));
                    if r.bool() {
                        e.insert("s".into(), json!(block_said(r)));
                    }
                    if r.chance(1, 3) {
                        e.insert("o".into(), r.pick(&[json!("I2I"), json!("NI2I"), json!("DI2I"), json!(["NOT", "I2I"])]).clone());
                    }
                    if r.chance(1, 4) {
                        e.insert("w".into(), json!(*r.pick(&["1/2", "0.5"])));
                    }
                    J::Object(e)
                }
            };
            m.insert(k, e);
        }
        return J::Object(m);
    }
    if r.bool() {
        m.insert("i".into(), json!(block_said(r)));
    }
    m.insert("dt".into(), json!("2021-06-09T17:35:54.169967+00:00"));
    for _ in 0..r.below(4) {
        m.insert(key(r), value(r, 1));
    }
    J::Object(m)
}

pub fn object(r: &mut Rng, depth: usize, max: usize) -> Map<String, J> {
    let n = r.below(max + 1);
    let mut m = Map::new();
    for _ in 0..n {
        m.insert(key(r), value(r, depth));
    }
    m
}

pub fn dump(j: &J) -> String {
    serde_json::to_string(j).unwrap()
}

pub fn version_string(ident: &str, size: usize) -> String {
    format!("{ident}10JSON{size:06x}_")
}

pub fn is_version(s: &str) -> bool {
    let b = s.as_bytes();
    let hex = |c: &u8| c.is_ascii_digit() || (b'a'..=b'f').contains(c);
    b.len() == 17 && (s.starts_with("KERI") || s.starts_with("ACDC")) && hex(&b[4]) && hex(&b[5]) && &b[6..10] == b"JSON" && b[10..16].iter().all(hex) && b[16] == b'_'
}

/// the document with its stated size corrected; None when it cannot be sized
pub fn sized(m: &Map<String, J>) -> Option<Map<String, J>> {
    let v = m.get("v")?.as_str()?;
    if !is_version(v) || &v[4..6] != "10" || m.keys().next().map(|k| k.as_str()) != Some("v") {
        return None;
    }
    let n = dump(&J::Object(m.clone())).len();
    if n > 0xff_ffff {
        return None;
    }
    let mut m = m.clone();
    m["v"] = json!(version_string(&v[..4], n));
    Some(m)
}

/// reference self-addressing derivation: digest and the dummied, sized document
pub fn derive(m: &Map<String, J>, code: &str, labels: &[&str], ignore: &[&str]) -> Option<(Vec<u8>, Map<String, J>)> {
    let fs = if code.len() == 1 { 44 } else { 88 };
    let mut m = m.clone();
    for l in labels {
        m.insert(l.to_string(), json!("#".repeat(fs)));
    }
    if m.contains_key("v") {
        m = sized(&m)?;
    }
    let mut d = Map::new();
    for (k, v) in &m {
        if !ignore.contains(&k.as_str()) {
            d.insert(k.clone(), v.clone());
        }
    }
    Some((crate::p_digest::hash(code, dump(&J::Object(d)).as_bytes()), m))
}

pub fn insert_at(m: &Map<String, J>, at: usize, k: &str, v: J) -> Map<String, J> {
    let mut out = Map::new();
    let mut done = false;
    for (i, (kk, vv)) in m.iter().filter(|(kk, _)| kk.as_str() != k).enumerate() {
        if i == at {
            out.insert(k.to_string(), v.clone());
            done = true;
        }
        out.insert(kk.clone(), vv.clone());
    }
    if !done {
        out.insert(k.to_string(), v);
    }
    out
}

/// one change somewhere in a value; returns what was done (the result may equal the input)
pub fn mutate_value(r: &mut Rng, j: &mut J) -> &'static str {
    match j {
        J::Object(m) if !m.is_empty() && r.chance(4, 5) => {
            let i = r.below(m.len());
            let k = m.keys().nth(i).unwrap().clone();
            if r.chance(2, 3) {
                return mutate_value(r, m.get_mut(&k).unwrap());
            }
            mutate_map(r, m, &[])
        }
        J::Array(a) if !a.is_empty() && r.chance(4, 5) => {
            let i = r.below(a.len());
            match r.below(6) {
                0 => {
                    a.remove(i);
                    "array-remove"
                }
                1 => {
                    let v = value(r, 1);
                    a.insert(i, v);
                    "array-insert"
                }
                2 if a.len() > 1 => {
                    let j = r.below(a.len());
                    a.swap(i, j);
                    "array-swap"
                }
                _ => mutate_value(r, &mut a[i]),
            }
        }
        J::String(s) => {
            let mut cs: Vec<char> = s.chars().collect();
            match r.below(6) {
                0 if !cs.is_empty() => {
                    let i = r.below(cs.len());
                    cs.remove(i);
                }
                1 => {
                    let i = r.below(cs.len() + 1);
                    cs.insert(i, *r.pick(CHARS));
                }
                2 if !cs.is_empty() => {
                    let i = r.below(cs.len());
                    cs[i] = if cs[i].is_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() };
                }
                3 => cs.push(' '),
                4 => {
                    if let Ok(n) = s.parse::<i64>() {
                        *j = json!(n);
                        return "string-to-number";
                    }
                    *j = J::Null;
                    return "string-to-null";
                }
                _ if !cs.is_empty() => {
                    let i = r.below(cs.len());
                    cs[i] = *r.pick(CHARS);
                }
                _ => cs.push('x'),
            }
            *j = J::String(cs.into_iter().collect());
            "string-changed"
        }
        J::Number(n) => {
            let t = match (n.as_i64(), r.below(3)) {
                (Some(i), 0) => json!(i.wrapping_add(1)),
                (Some(i), 1) => J::String(i.to_string()),
                (Some(i), _) => json!(i as f64),
                _ => json!(n.as_f64().unwrap_or(0.0) / 2.0 + 1.0),
            };
            *j = t;
            "number-changed"
        }
        J::Bool(b) => {
            *j = if r.bool() { J::Bool(!*b) } else { J::String(b.to_string()) };
            "bool-changed"
        }
        J::Null => {
            *j = r.pick(&[json!(""), json!(false), json!({}), json!([]), json!("null"), json!(0)]).clone();
            "null-changed"
        }
        J::Array(_) => {
            *j = r.pick(&[json!({}), json!([[]]), json!([null]), json!("")]).clone();
            "array-replaced"
        }
        J::Object(_) => {
            *j = r.pick(&[json!([]), json!({"a": null}), J::Null, json!("{}")]).clone();
            "object-replaced"
        }
    }
}

/// one structural change of an object's own fields, leaving the fixed ones alone
pub fn mutate_map(r: &mut Rng, m: &mut Map<String, J>, fixed: &[&str]) -> &'static str {
    let free: Vec<String> = m.keys().filter(|k| !fixed.contains(&k.as_str())).cloned().collect();
    let entries: Vec<(String, J)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let op = r.below(6);
    if free.is_empty() || op == 0 {
        let mut k = key(r);
        while m.contains_key(&k) {
            k.push('x');
        }
        let at = if fixed.contains(&"v") && m.contains_key("v") { r.range(1, m.len()) } else { r.below(m.len() + 1) };
        let v = value(r, 1);
        *m = insert_at(m, at, &k, v);
        return "field-added";
    }
    let k = r.pick(&free).clone();
    match op {
        1 => {
            m.shift_remove(&k);
            "field-removed"
        }
        2 => {
            let mut nk = match r.below(3) {
                0 => format!("{k} "),
                1 => k.to_uppercase(),
                _ => key(r),
            };
            while m.contains_key(&nk) {
                nk.push('_');
            }
            *m = entries.into_iter().map(|(kk, v)| if kk == k { (nk.clone(), v) } else { (kk, v) }).collect();
            "field-renamed"
        }
        3 if free.len() > 1 => {
            let mut o = r.pick(&free).clone();
            while o == k {
                o = r.pick(&free).clone();
            }
            let mut e = entries;
            let a = e.iter().position(|x| x.0 == k).unwrap();
            let b = e.iter().position(|x| x.0 == o).unwrap();
            e.swap(a, b);
            *m = e.into_iter().collect();
            "fields-reordered"
        }
        4 if free.len() > 1 => {
            let mut o = r.pick(&free).clone();
            while o == k {
                o = r.pick(&free).clone();
            }
            let (a, b) = (m[&k].clone(), m[&o].clone());
            m[&k] = b;
            m[&o] = a;
            "values-exchanged"
        }
        _ => mutate_value(r, m.get_mut(&k).unwrap()),
    }
}
