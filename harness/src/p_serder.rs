//! C20-C22: events and credentials.
use crate::cesr::{self, matter_qb64};
use crate::fw::*;
use crate::jsn::{self, build, dump, V};
use crate::p_digest::DIGEST_CODES;
use crate::p_prefix::{key_text, KEY_CODES};
use crate::p_tholder::{canonical, clauses, nested, reaches_one, Frac};
use crate::types::es;
use cesride::common::Version;
use cesride::{Creder, Matter, Sadder, Serder};
use serde_json::{json, Map, Value as J};

fn digest(r: &mut Rng, code: &str) -> String {
    let n = cesr::mcode(code).unwrap().raw.unwrap();
    let raw = r.raw(n);
    matter_qb64(code, &raw)
}

/// a field map with version string and identifier, sized
pub fn event(r: &mut Rng, ident: &str, code: &str) -> Map<String, J> {
    let mut m = jsn::object(r, 3, 9);
    if r.chance(1, 120) {
        let n = *r.pick(&[3900usize, 65_300, 1 << 20]) + r.below(300);
        m.insert("blob".into(), json!("x".repeat(n)));
    }
    let at = r.below(m.len() + 1);
    let d = digest(r, code);
    m = jsn::insert_at(&m, at, "d", json!(d));
    let stale = *r.pick(&["000000", "ffffff", "00012b", "abcdef"]);
    m = jsn::insert_at(&m, 0, "v", json!(format!("{ident}10JSON{stale}_")));
    m
}

#[derive(PartialEq, Debug, Clone)]
struct Sad {
    code: String,
    raw: Vec<u8>,
    ked: Result<String, String>,
    ident: String,
    kind: String,
    size: u32,
    version: Version,
    said: Result<String, String>,
    saidb: Result<Vec<u8>, String>,
    saider: (String, Vec<u8>),
}

fn look<T: Sadder>(t: &T) -> Sad {
    Sad {
        code: t.code(),
        raw: t.raw(),
        ked: es(t.ked().to_json()),
        ident: t.ident(),
        kind: t.kind(),
        size: t.size(),
        version: t.version(),
        said: es(t.said()),
        saidb: es(t.saidb()),
        saider: (t.saider().code(), t.saider().raw()),
    }
}

/// what an event with these bytes has to look like
fn expect(ident: &str, code: &str, raw: &[u8], m: &Map<String, J>) -> Sad {
    let d = m["d"].as_str().unwrap().to_string();
    let dd = cesr::matter_decode(d.as_bytes()).unwrap();
    Sad {
        code: code.into(),
        raw: raw.to_vec(),
        ked: Ok(dump(&J::Object(m.clone()))),
        ident: ident.into(),
        kind: "JSON".into(),
        size: raw.len() as u32,
        version: Version { major: 1, minor: 0 },
        said: Ok(d.clone()),
        saidb: Ok(d.into_bytes()),
        saider: (dd.code.to_string(), dd.raw),
    }
}

fn differ(a: &Sad, b: &Sad) -> String {
    let mut out = vec![];
    macro_rules! d { ($($f:ident),*) => { $(if a.$f != b.$f { out.push(format!("{} {} want {}", stringify!($f), clip(&format!("{:?}", a.$f)), clip(&format!("{:?}", b.$f)))); })* } }
    if a.raw != b.raw {
        out.push(format!("raw {:?} want {:?}", clip(&String::from_utf8_lossy(&a.raw)), clip(&String::from_utf8_lossy(&b.raw))));
    }
    d!(code, ked, ident, kind, size, version, said, saidb, saider);
    clip(&out.join("; "))
}

fn trailing(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 | 1 => vec![],
        2 => matter_qb64("0B", &r.bytes(64)).into_bytes(),
        3 => b"-AABAA".iter().copied().chain(matter_qb64("D", &r.bytes(32)).into_bytes()).collect(),
        4 => r.pick(&[" ", "\n", "}", "{}", "\"", "\0", ",", "é"]).as_bytes().to_vec(),
        5 => b"{\"v\":\"KERI10JSON000042_\",\"d\":\"\"}".to_vec(),
        _ => {
            let n = r.below(200);
            r.bytes(n)
        }
    }
}

/// floats are compared as the JSON reader reads them
fn reread(m: &Map<String, J>) -> Map<String, J> {
    serde_json::from_str(&dump(&J::Object(m.clone()))).unwrap()
}

fn pretty(m: &Map<String, J>) -> String {
    serde_json::to_string_pretty(&J::Object(reread(m))).unwrap()
}

type ByKed<T> = fn(&V, Option<&str>, Option<&str>) -> Result<T, String>;
type ByRaw<T> = fn(&[u8], Option<&str>) -> Result<T, String>;
type BySad<T> = fn(&T) -> Result<T, String>;

fn faithful<T: Sadder + PartialEq + std::fmt::Debug>(c: &mut Case, ident: &str, ked: ByKed<T>, raw: ByRaw<T>, sad: BySad<T>, m: &Map<String, J>, code: &str) {
    let doc = J::Object(m.clone());
    let ctx = || clip(&dump(&J::Object(m.clone())));
    let want_m = jsn::sized(m).expect("sizable event");
    let want_raw = dump(&J::Object(want_m.clone())).into_bytes();
    let want = expect(ident, code, &want_raw, &want_m);
    let v = build(&doc);
    let code_arg = if code == "E" && c.rng.bool() { None } else { Some(code) };
    let kind = *c.rng.pick(&[None, Some("JSON")]);
    let Some(x) = c.total("from fields", ctx, || ked(&v, code_arg, kind)) else { return };
    let x = match x {
        Ok(x) => x,
        Err(e) => return c.fail("refused:fields", format!("{e} {}", ctx())),
    };
    let got = look(&x);
    c.check(got == want, "from-fields", || format!("{} of {}", differ(&got, &want), ctx()));
    c.check(es(v.to_json()) == Ok(dump(&doc)), "fields-changed", ctx);
    c.ev("built from fields");
    // reading back, whatever follows
    let back_m = reread(&want_m);
    let mut want_b = want.clone();
    want_b.ked = Ok(dump(&J::Object(back_m.clone())));
    let mut first = None;
    for _ in 0..3 {
        let mut data = want_raw.clone();
        data.extend(trailing(&mut c.rng));
        let Some(y) = c.total("from bytes", ctx, || raw(&data, code_arg)) else { continue };
        match y {
            Ok(y) => {
                let got = look(&y);
                c.check(got == want_b, "from-bytes", || format!("{} of {}", differ(&got, &want_b), ctx()));
                c.ev("read from bytes");
                first = Some(y);
            }
            Err(e) => c.fail("refused:bytes", format!("{e} {} trailing {:?}", ctx(), clip(&format!("{:?}", &data[want_raw.len()..])))),
        }
    }
    // field by field
    for (k, val) in &want_m {
        let g = x.ked().to_map().map(|o| o.get(k.as_str()).cloned());
        c.check(matches!(&g, Ok(Some(g)) if *g == build(val)), "field", || format!("{k} {g:?} want {val}"));
    }
    let keys = x.ked().to_map().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default();
    c.check(keys == want_m.keys().cloned().collect::<Vec<_>>(), "field-order", || format!("{keys:?} {}", ctx()));
    // pretty printing shows the same content, cut to a number of characters
    let full = pretty(&want_m);
    let len = full.chars().count();
    for n in [None, Some(0), Some(1), Some(len), Some(len + 5), Some(c.rng.below(len + 1)), Some(len - 1)] {
        let p = c.total("pretty", ctx, || es(x.pretty(n)));
        let w: String = full.chars().take(n.unwrap_or(1024)).collect();
        c.check(p == Some(Ok(w.clone())), "pretty", || format!("{n:?} got {:?} want {:?}", clip(&format!("{p:?}")), clip(&w)));
        c.ev("pretty printed");
    }
    // copying keeps everything
    if let Some(Ok(z)) = c.total("copy", ctx, || sad(&x)) {
        c.check(look(&z) == got && z == x, "copy", || differ(&look(&z), &got));
    } else {
        c.fail("refused:copy", ctx());
    }
    // sizing again from what it holds changes nothing
    let mut z = x.clone();
    let r = c.total("again", ctx, || es(z.populate_from_kind_and_self("JSON")));
    c.check(r == Some(Ok(())) && look(&z) == want, "resized-again", || format!("{r:?} {}", differ(&look(&z), &want)));
    // and an event edited and sized anew agrees with one built from the edited fields
    let mut m2 = want_m.clone();
    jsn::mutate_map(&mut c.rng, &mut m2, &["v", "d"]);
    if let Some(w2m) = jsn::sized(&m2) {
        z.set_ked(&build(&J::Object(m2.clone())));
        let r = c.total("edited", ctx, || es(z.populate_from_kind_and_self("JSON")));
        let w2 = expect(ident, code, dump(&J::Object(w2m.clone())).as_bytes(), &w2m);
        c.check(r == Some(Ok(())) && look(&z) == w2, "resized-edit", || format!("{r:?} {}", differ(&look(&z), &w2)));
        c.ev("edited and sized");
    }
    c.check(look(&x) == want, "reading-changed-it", ctx);
    if let Some(y) = first {
        c.check(look(&y) == want_b, "reading-changed-it", ctx);
    }
    // other layouts of the same fields are kept byte for byte
    let mut p = pretty_sized(&want_m);
    if let Some(q) = p.as_mut() {
        let n = q.len();
        let w = serde_json::from_str::<Map<String, J>>(q).unwrap();
        let mut want_p = expect(ident, code, q.as_bytes(), &w);
        want_p.size = n as u32;
        let mut data = q.clone().into_bytes();
        data.extend(trailing(&mut c.rng));
        match c.total("from pretty bytes", ctx, || raw(&data, code_arg)) {
            Some(Ok(y)) => {
                let g = look(&y);
                c.check(g == want_p, "from-pretty-bytes", || differ(&g, &want_p));
                match c.total("copy of other layout", ctx, || sad(&y)) {
                    Some(Ok(z)) => {
                        c.check(look(&z) == want_p && z == y, "copy", || differ(&look(&z), &want_p));
                    }
                    _ => c.fail("refused:copy", ctx()),
                }
                c.ev("read from other layouts");
            }
            Some(Err(e)) => c.fail("refused:pretty-bytes", format!("{e} {}", clip(q))),
            None => {}
        }
    }
}

/// the document pretty printed, stating the length of that layout
fn pretty_sized(m: &Map<String, J>) -> Option<String> {
    let mut m = reread(m);
    let n = serde_json::to_string_pretty(&J::Object(m.clone())).ok()?.len();
    let v = m["v"].as_str()?.to_string();
    m["v"] = json!(jsn::version_string(&v[..4], n));
    serde_json::to_string_pretty(&J::Object(m)).ok()
}

fn ser_ked(v: &V, c: Option<&str>, k: Option<&str>) -> Result<Serder, String> {
    es(Serder::new_with_ked(v, c, k))
}
fn ser_raw(r: &[u8], c: Option<&str>) -> Result<Serder, String> {
    if c.is_none() {
        return es(Serder::new_with_raw(r));
    }
    es(Serder::new(c, Some(r), None, None, None))
}
fn ser_sad(s: &Serder) -> Result<Serder, String> {
    es(Serder::new(None, None, None, None, Some(s)))
}
fn cre_ked(v: &V, c: Option<&str>, k: Option<&str>) -> Result<Creder, String> {
    es(Creder::new_with_ked(v, c, k))
}
fn cre_raw(r: &[u8], c: Option<&str>) -> Result<Creder, String> {
    if c.is_none() {
        return es(Creder::new_with_raw(r));
    }
    es(Creder::new(c, Some(r), None, None, None))
}
fn cre_sad(s: &Creder) -> Result<Creder, String> {
    es(Creder::new(None, None, None, None, Some(s)))
}

pub fn c20_events(c: &mut Case) {
    let code = if c.rng.chance(1, 2) { "E" } else { *c.rng.pick(&DIGEST_CODES) };
    let m = event(&mut c.rng, "KERI", code);
    faithful::<Serder>(c, "KERI", ser_ked, ser_raw, ser_sad, &m, code);
    c.sample(|| dump(&J::Object(m.clone())));
    c.seen(&dump(&J::Object(m)));
}

/// every way of being refused
fn refusals<T: Sadder + std::fmt::Debug>(c: &mut Case, ident: &str, ked: ByKed<T>, raw: ByRaw<T>) {
    let code = *c.rng.pick(&DIGEST_CODES);
    let m = jsn::sized(&event(&mut c.rng, ident, code)).unwrap();
    let bytes = dump(&J::Object(m.clone())).into_bytes();
    let vs = m["v"].as_str().unwrap().to_string();
    let n = bytes.len();
    let mut datas: Vec<(&'static str, Vec<u8>)> = vec![];
    let restate = |vs2: &str| {
        let mut b = bytes.clone();
        b.splice(6..23, vs2.bytes());
        b
    };
    // stated size over, under
    for d in [1usize, 2, 7, 1000] {
        datas.push(("size-exceeds-data", restate(&jsn::version_string(ident, n + d))));
        if n > d {
            datas.push(("size-cuts-event", restate(&jsn::version_string(ident, n - d))));
        }
    }
    datas.push(("size-exceeds-data", restate(&jsn::version_string(ident, 0xffffff))));
    datas.push(("size-cuts-event", restate(&jsn::version_string(ident, 0))));
    let cut = c.rng.below(n);
    datas.push(("data-cut", bytes[..cut].to_vec()));
    datas.push(("data-cut", bytes[..n - 1].to_vec()));
    let mut over = restate(&jsn::version_string(ident, n + 3));
    over.extend(b"abc");
    datas.push(("size-covers-trailing", over));
    // version, protocol, kind
    let other = if ident == "KERI" { "ACDC" } else { "KERI" };
    for w in [
        vs.replacen("10JSON", "11JSON", 1),
        vs.replacen("10JSON", "20JSON", 1),
        vs.replacen("10JSON", "00JSON", 1),
        vs.replacen("10JSON", "01JSON", 1),
        vs.replacen("10JSON", "1fJSON", 1),
        vs.replacen("10JSON", "f0JSON", 1),
        vs.replacen("JSON", "CBOR", 1),
        vs.replacen("JSON", "MGPK", 1),
        vs.replacen("JSON", "CESR", 1),
        vs.replacen(ident, other, 1),
        vs.replacen(ident, "XERI", 1),
        vs.replacen(ident, "ACDD", 1),
        vs.replacen('_', "-", 1),
        vs.to_lowercase(),
        vs.replacen(ident, "keri", 1),
        " ".repeat(17),
    ] {
        datas.push(("version-string", restate(&w)));
    }
    for (what, d) in &datas {
        let r = c.total("from bytes", || clip(&format!("{what} {:?}", String::from_utf8_lossy(d))), || raw(d, Some(code)));
        c.check(matches!(r, Some(Err(_))), &format!("accepted:{what}"), || clip(&String::from_utf8_lossy(d)));
        c.ev("bytes refused");
    }
    // the same through fields; and identifier fields that are none
    let mut docs: Vec<(&'static str, Map<String, J>)> = vec![];
    let put = |k: &str, v: J| {
        let mut x = m.clone();
        x[k] = v;
        x
    };
    for w in ["KERI11JSON000000_", "ACDC20JSON000000_", "KERI10CBOR000000_", "XERI10JSON000000_", "", "KERI10JSON00000_", "KERI10JSON000000"] {
        docs.push(("version-string", put("v", json!(w))));
    }
    docs.push(("protocol", put("v", json!(jsn::version_string(other, 0)))));
    for w in [J::Null, json!(1), json!([vs]), json!({"v": vs})] {
        docs.push(("version-type", put("v", w)));
    }
    let mut x = m.clone();
    x.shift_remove("v");
    docs.push(("no-version", x));
    let good = m["d"].as_str().unwrap().to_string();
    let mut ds: Vec<J> = vec![J::Null, json!(5), json!(true), json!([good]), json!({"d": good}), json!(""), json!("E"), json!(&good[..good.len() - 1]), json!("#".repeat(44)), json!(format!(" {good}")), json!(format!("={}", &good[1..])), json!("not a digest"), json!("EAAé")];
    for k in DIGEST_CODES {
        if k != code {
            ds.push(json!(digest(&mut c.rng, k)));
        }
    }
    for k in ["A", "B", "D", "0A", "0B", "1AAA", "1AAG", "M", "4A"] {
        let raw = c.rng.bytes(cesr::mcode(k).unwrap().raw.unwrap_or(33));
        let k2 = if k == "4A" { cesr::var_code("4A", 33).unwrap() } else { k };
        ds.push(json!(matter_qb64(k2, &raw)));
    }
    for d in ds {
        docs.push(("identifier", put("d", d)));
    }
    let mut x = m.clone();
    x.shift_remove("d");
    docs.push(("no-identifier", x));
    for (what, d) in &docs {
        let text = dump(&J::Object(d.clone()));
        let v = build(&J::Object(d.clone()));
        let r = c.total("from fields", || clip(&format!("{what} {text}")), || ked(&v, Some(code), None));
        c.check(matches!(r, Some(Err(_))), &format!("accepted:{what}"), || clip(&text));
        c.ev("fields refused");
        // and as bytes, with the right size where one can be stated
        let mut s = d.clone();
        if let Some(t) = jsn::sized(d) {
            s = t;
        }
        let mut b = dump(&J::Object(s)).into_bytes();
        b.resize(b.len().max(29), b' ');
        let r = c.total("from bytes", || clip(&format!("{what} {text}")), || raw(&b, Some(code)));
        c.check(matches!(r, Some(Err(_))), &format!("accepted:{what}"), || clip(&text));
        c.ev("bytes refused");
    }
    for k in ["CBOR", "MGPK", "json", ""] {
        let v = build(&J::Object(m.clone()));
        let r = c.total("kind", || k.to_string(), || ked(&v, Some(code), Some(k)));
        c.check(matches!(r, Some(Err(_))), "accepted:kind", || k.to_string());
    }
    // documents that are no maps
    for d in [J::Null, json!([]), json!("KERI10JSON000000_"), json!(3), json!([vs, good])] {
        let v = build(&d);
        let r = c.total("from fields", || d.to_string(), || ked(&v, Some(code), None));
        c.check(matches!(r, Some(Err(_))), "accepted:not-a-map", || d.to_string());
    }
    c.seen(&bytes);
    c.sample(|| clip(&String::from_utf8_lossy(&bytes)));
}

pub fn c20_refuse(c: &mut Case) {
    refusals::<Serder>(c, "KERI", ser_ked, ser_raw);
}

/// arbitrary changes to the bytes of an event: what is accepted is consistent with those bytes
fn altered<T: Sadder + std::fmt::Debug>(c: &mut Case, ident: &str, raw: ByRaw<T>) {
    let code = if c.rng.bool() { "E" } else { *c.rng.pick(&DIGEST_CODES) };
    let m = jsn::sized(&event(&mut c.rng, ident, code)).unwrap();
    let mut b = dump(&J::Object(m)).into_bytes();
    b.extend(trailing(&mut c.rng));
    let frames: [&[u8]; 14] = [b"\xef\xbb\xbf", b"\0", b"\0\0", b" ", b"\n", b"\r\n", b"\t\t", b"\xc2\xa0", b"\xe2\x80\x8b", b",", b"{}", b"//\n", b"\x0c", b"\xff"];
    let framed = c.rng.chance(1, 5);
    if framed {
        // framed before or behind, the size restated to cover the frame or not
        let f = *c.rng.pick(&frames);
        let n = std::str::from_utf8(&b[16..22]).ok().and_then(|s| usize::from_str_radix(s, 16).ok());
        if let (Some(n), true) = (n, b.starts_with(b"{\"v\":\"")) {
            if c.rng.chance(3, 4) {
                b[16..22].copy_from_slice(format!("{:06x}", n + f.len()).as_bytes());
            }
            let at = if c.rng.bool() { 0 } else { n };
            b.splice(at..at, f.iter().copied());
            c.ev("framed");
        }
    }
    for _ in 0..c.rng.range(if framed { 0 } else { 1 }, if framed { 1 } else { 3 }) {
        let i = if c.rng.bool() { c.rng.below(b.len().min(30)) } else { c.rng.below(b.len()) };
        match c.rng.below(5) {
            0 => b[i] ^= 1 << c.rng.below(8),
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *c.rng.pick(b" \n\"}{,:0_aE\x00\xff\\")),
            3 => b[i] = *c.rng.pick(b" \n\"}{,:0123456789abcdef_E\x00\xc3\\"),
            _ => b.truncate(i.max(1)),
        }
        if b.is_empty() {
            b.push(b'{');
        }
    }
    let show = || clip(&String::from_utf8_lossy(&b));
    let Some(r) = c.total("from bytes", show, || raw(&b, Some(code))) else { return };
    match r {
        Err(_) => c.ev("altered refused"),
        Ok(x) => {
            let g = look(&x);
            let n = g.size as usize;
            c.check(n <= b.len() && g.raw == b[..n.min(b.len())], "raw-not-leading-bytes", || format!("{} {}", g.size, show()));
            let at = b.windows(17).position(|w| std::str::from_utf8(w).map(jsn::is_version).unwrap_or(false));
            let stated = at.and_then(|a| std::str::from_utf8(&b[a + 10..a + 16]).ok()).and_then(|s| usize::from_str_radix(s, 16).ok());
            c.check(stated == Some(n), "size-not-stated", || format!("{stated:?} {n} {}", show()));
            c.check(g.ident == ident && g.version == Version { major: 1, minor: 0 } && g.kind == "JSON", "tags", || format!("{g:?}"));
            match serde_json::from_slice::<J>(&b[..n.min(b.len())]) {
                Ok(j) => {
                    c.check(g.ked == Ok(dump(&j)), "fields-not-of-bytes", || format!("{:?} {}", g.ked, show()));
                    let d = j.get("d").and_then(|d| d.as_str()).unwrap_or("").to_string();
                    let s = g.said.clone().unwrap_or_default();
                    c.check(!s.is_empty() && d.starts_with(&s) && g.saider.0 == code, "identifier-not-of-bytes", || format!("{s} {}", show()));
                }
                Err(e) => c.fail("not-json-accepted", format!("{e} {}", show())),
            }
            c.ev("altered accepted and consistent");
        }
    }
    c.seen(&b);
}

pub fn c20_altered(c: &mut Case) {
    altered::<Serder>(c, "KERI", ser_raw);
}

// ---------------------------------------------------------------- C21

fn hexnum(r: &mut Rng) -> (u128, String) {
    let n = match r.below(6) {
        0 => *r.pick(&[0u128, 1, 9, 10, 15, 16, 255, 256, 65535, 65536, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX, u128::MAX - 1, 1 << 127]),
        1 | 2 => r.u128() >> r.below(128),
        _ => r.below(300) as u128,
    };
    let s = match r.below(6) {
        0 => format!("{n:X}"),
        1 => format!("{n:04x}"),
        _ => format!("{n:x}"),
    };
    (n, s)
}

#[derive(Clone, Debug)]
enum Th {
    Num(u32),
    Weights(Vec<Vec<Frac>>),
}

fn threshold(r: &mut Rng) -> (Th, J) {
    if r.chance(2, 3) {
        let n = if r.chance(1, 4) { r.u32() >> r.below(32) } else { r.below(12) as u32 };
        let j = match r.below(4) {
            0 => json!(n),
            1 => json!(format!("{n:X}")),
            _ => json!(format!("{n:x}")),
        };
        return (Th::Num(n), j);
    }
    let cl = clauses(r);
    let n = nested(r, &cl);
    let j = match r.below(4) {
        0 if cl.len() == 1 => n[0].clone(),
        1 => json!(n.to_string()),
        2 => canonical(&cl),
        _ => n,
    };
    (Th::Weights(cl), j)
}

fn same_threshold(c: &mut Case, what: &str, t: Result<Option<cesride::Tholder>, String>, want: &Option<Th>, ctx: &str) {
    match (t, want) {
        (Ok(None), None) => c.ev("absent thresholds"),
        (Ok(Some(t)), Some(Th::Num(n))) => {
            c.check(!t.weighted() && es(t.num()) == Ok(Some(*n)) && es(t.thold().to_i64()) == Ok(*n as i64), what, || format!("{t:?} want {n} {ctx}"));
            c.ev("numeric thresholds");
        }
        (Ok(Some(t)), Some(Th::Weights(cl))) => {
            let size: usize = cl.iter().map(|x| x.len()).sum();
            c.check(t.weighted() && t.size() as usize == size && t.thold() == build(&canonical(cl)), what, || format!("{:?} want {} {ctx}", t.thold(), canonical(cl)));
            let all: Vec<u32> = (0..size as u32).collect();
            c.check(es(t.satisfy(&all)) == Ok(cl.iter().all(|x| reaches_one(x))), what, || ctx.to_string());
            c.ev("weighted thresholds");
        }
        (t, want) => c.fail(what, format!("{t:?} want {want:?} {ctx}")),
    }
}

const ILKS: [&str; 18] = ["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev", "bis", "brv"];

pub struct Ev {
    pub map: Map<String, J>,
    keys: Option<Vec<String>>,
    nexts: Option<Vec<String>>,
    wits: Option<Vec<String>>,
    kt: Option<Th>,
    nt: Option<Th>,
    sn: u128,
    f: Option<(u128, String)>,
    pre: String,
    ilk: String,
}

pub fn key_event(r: &mut Rng) -> Ev {
    let mut m: Vec<(String, J)> = vec![];
    let ilk = match r.below(8) {
        0..=3 => r.pick(&["icp", "rot", "dip", "drt"]).to_string(),
        4 | 5 => r.pick(&ILKS).to_string(),
        6 => "ixn".to_string(),
        _ => r.pick(&["ICP", "icp ", "", "ic", "rotx", "icpp", "Icp", "vrc", "rotation", "dipdrt"]).to_string(),
    };
    m.push(("t".into(), json!(ilk)));
    m.push(("d".into(), json!(digest(r, "E"))));
    let pc = if r.bool() { "E" } else { *r.pick(&KEY_CODES) };
    let pre = if r.chance(1, 10) { jsn::string(r) } else if pc == "E" { digest(r, "E") } else { key_text(r, pc) };
    m.push(("i".into(), json!(pre)));
    let (sn, s) = hexnum(r);
    m.push(("s".into(), json!(s)));
    if r.bool() {
        m.push(("p".into(), json!(digest(r, "E"))));
    }
    let list = |r: &mut Rng, name: &str, dig: bool, m: &mut Vec<(String, J)>| -> Option<Vec<String>> {
        if r.chance(1, 6) {
            return None;
        }
        let n = match r.below(8) {
            0 => 0,
            1 if r.chance(1, 5) => *r.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]),
            1 => r.range(6, 30),
            _ => r.range(1, 5),
        };
        let mut v: Vec<String> = (0..n)
            .map(|_| {
                if dig {
                    let k = *r.pick(&DIGEST_CODES);
                    digest(r, k)
                } else {
                    let k = *r.pick(&KEY_CODES);
                    key_text(r, k)
                }
            })
            .collect();
        if n > 1 && r.chance(1, 5) {
            // repeated entries are kept as they are
            let i = r.below(n - 1);
            v[n - 1] = v[i].clone();
        }
        m.push((name.into(), json!(v)));
        Some(v)
    };
    let mut kt = None;
    if !r.chance(1, 6) {
        let (t, j) = threshold(r);
        m.push(("kt".into(), j));
        kt = Some(t);
    }
    let keys = list(r, "k", false, &mut m);
    let mut nt = None;
    if !r.chance(1, 6) {
        let (t, j) = threshold(r);
        m.push(("nt".into(), j));
        nt = Some(t);
    }
    let nexts = list(r, "n", true, &mut m);
    m.push(("bt".into(), json!("0")));
    let wits = list(r, "b", false, &mut m);
    if r.chance(1, 3) {
        m.push(("br".into(), json!([key_text(r, "B")])));
        m.push(("ba".into(), json!([key_text(r, "B")])));
    }
    m.push(("a".into(), r.pick(&[json!([]), json!([{"i": "x", "s": "0", "d": "y"}]), json!({})]).clone()));
    let mut f = None;
    if r.chance(1, 2) {
        let (n, _) = hexnum(r);
        let code = match r.below(4) {
            0 if n < 1 << 16 => "M",
            1 if n < 1 << 32 => "0H",
            2 if n < 1 << 64 => "N",
            _ => "0A",
        };
        let w = cesr::mcode(code).unwrap().raw.unwrap();
        let t = matter_qb64(code, &n.to_be_bytes()[16 - w..]);
        m.push(("f".into(), json!(t)));
        f = Some((n, t));
    }
    if r.chance(1, 3) {
        m.push((r.pick(&["di", "c", "r", "zz", "dt"]).to_string(), jsn::value(r, 2)));
    }
    if r.chance(1, 3) {
        r.shuffle(&mut m);
    }
    m.insert(0, ("v".into(), json!("KERI10JSON000000_")));
    Ev { map: m.into_iter().collect(), keys, nexts, wits, kt, nt, sn, f, pre, ilk }
}

/// by fields or by bytes
fn make(c: &mut Case, m: &Map<String, J>) -> Option<Serder> {
    let text = dump(&J::Object(m.clone()));
    if c.rng.bool() {
        let v = build(&J::Object(m.clone()));
        let r = c.total("from fields", || clip(&text), || es(Serder::new_with_ked(&v, None, None)))?;
        if let Err(e) = &r {
            c.fail("refused:event", format!("{e} {}", clip(&text)));
        }
        r.ok()
    } else {
        let s = jsn::sized(m).unwrap();
        let mut b = dump(&J::Object(s)).into_bytes();
        b.extend(trailing(&mut c.rng));
        let r = c.total("from bytes", || clip(&text), || es(Serder::new_with_raw(&b)))?;
        if let Err(e) = &r {
            c.fail("refused:event", format!("{e} {}", clip(&text)));
        }
        r.ok()
    }
}

fn texts<M: Matter>(v: &[M]) -> Vec<String> {
    v.iter().map(|x| es(x.qb64()).unwrap_or_else(|e| format!("error {e}"))).collect()
}

pub fn c21_read(c: &mut Case) {
    let e = key_event(&mut c.rng);
    let text = clip(&dump(&J::Object(e.map.clone())));
    let Some(s) = make(c, &e.map) else { return };
    let before = es(s.ked().to_json());
    let ctx = || text.clone();
    for _ in 0..2 {
        // twice: reading changes nothing
        if let Some(v) = c.total("verfers", ctx, || es(s.verfers())) {
            let v = v.map(|v| texts(&v));
            c.check(v == Ok(e.keys.clone().unwrap_or_default()), "verfers", || format!("{v:?} {text}"));
            c.evn("keys read", e.keys.as_ref().map(|k| k.len()).unwrap_or(0) as u64);
        }
        if let Some(v) = c.total("digers", ctx, || es(s.digers())) {
            let v = v.map(|v| texts(&v));
            c.check(v == Ok(e.nexts.clone().unwrap_or_default()), "digers", || format!("{v:?} {text}"));
            c.evn("digests read", e.nexts.as_ref().map(|k| k.len()).unwrap_or(0) as u64);
        }
        if let Some(v) = c.total("werfers", ctx, || es(s.werfers())) {
            let v = v.map(|v| texts(&v));
            c.check(v == Ok(e.wits.clone().unwrap_or_default()), "werfers", || format!("{v:?} {text}"));
            c.evn("witnesses read", e.wits.as_ref().map(|k| k.len()).unwrap_or(0) as u64);
        }
        if let Some(t) = c.total("tholder", ctx, || es(s.tholder())) {
            same_threshold(c, "tholder", t, &e.kt, &text);
        }
        if let Some(t) = c.total("ntholder", ctx, || es(s.ntholder())) {
            same_threshold(c, "ntholder", t, &e.nt, &text);
        }
        let sn = c.total("sn", ctx, || es(s.sn()));
        c.check(sn == Some(Ok(e.sn)), "sn", || format!("{sn:?} {text}"));
        if let Some(n) = c.total("sner", ctx, || es(s.sner())) {
            let n = n.map(|n| (es(n.num()), es(n.numh()).map(|h| u128::from_str_radix(&h, 16).ok())));
            c.check(n == Ok((Ok(e.sn), Ok(Some(e.sn)))), "sner", || format!("{n:?} {text}"));
        }
        let f = c.total("fner", ctx, || es(s.fner()).map(|f| f.map(|f| (es(f.num()), es(f.qb64()))))) ;
        let want = e.f.clone().map(|(n, t)| (Ok(n), Ok(t)));
        c.check(f == Some(Ok(want)), "fner", || format!("{f:?} {text}"));
        let f = c.total("fn", ctx, || es(s._fn()));
        c.check(match (&f, &e.f) {
            (Some(Ok(n)), Some(w)) => *n == w.0,
            (Some(Err(_)), None) => true,
            _ => false,
        }, "fn", || format!("{f:?} {text}"));
        let p = c.total("pre", ctx, || es(s.pre()));
        c.check(p == Some(Ok(e.pre.clone())), "pre", || format!("{p:?} {text}"));
        let p = c.total("preb", ctx, || es(s.preb()));
        c.check(p == Some(Ok(e.pre.clone().into_bytes())), "preb", || format!("{p:?} {text}"));
        let x = c.total("est", ctx, || es(s.est()));
        c.check(x == Some(Ok(["icp", "rot", "dip", "drt"].contains(&e.ilk.as_str()))), "est", || format!("{x:?} {text}"));
        for k in ["p", "a", "t", "br", "ba", "di", "c"] {
            let g = s.ked().to_map().ok().and_then(|m| m.get(k).map(|x| x.to_json().unwrap_or_default()));
            // floats are compared as the JSON reader reads them (C23 judges the reader)
            c.check(g == e.map.get(k).map(dump) || g == reread(&e.map).get(k).map(dump), "field", || format!("{k} {g:?} {text}"));
        }
    }
    c.check(es(s.ked().to_json()) == before, "reading-changed-it", ctx);
    c.ev(if ["icp", "rot", "dip", "drt"].contains(&e.ilk.as_str()) { "establishment" } else { "other events" });
    c.ev("events read");
    c.sample(|| text.clone());
    c.seen(&text);
}

fn bad_number(r: &mut Rng) -> J {
    match r.below(8) {
        0 => J::Null,
        1 => json!(r.below(20)),
        2 => json!(["0"]),
        3 => json!(format!("{:x}{}", r.u128() | (1 << 127), r.below(10))),
        4 => json!(format!("{}{:x}", r.pick(&["-", "+", "+0", "-0", "++"]), r.below(100) + 1)),
        5 => json!(format!("0x{:x}", r.below(100))),
        6 => json!(format!("{:x}{}", r.below(100), r.pick(&["g", " ", "h", ".0", "é", "_", "\n"]))),
        _ => json!(format!("{}{:x}", r.pick(&["g", " ", "z", ".", "é", "_", "\n", "--", "+"]), r.below(100))),
    }
}

fn bad_element(r: &mut Rng, dig: bool) -> J {
    let good = if dig { digest(r, "E") } else { key_text(r, "D") };
    match r.below(9) {
        0 => J::Null,
        1 => json!(7),
        2 => json!([good]),
        3 => json!(""),
        4 => json!(&good[..r.below(good.len())]),
        5 => json!(format!("{}{}", r.pick(&[" ", "=", "_", "#", "é", "-", "9"]), good)),
        6 => {
            // material of another kind
            let k = if dig { *r.pick(&["D", "B", "A", "0A", "0B", "1AAB", "M"]) } else { *r.pick(&["E", "A", "C", "0A", "0B", "1AAG", "F", "0D", "J", "M"]) };
            let raw = r.bytes(cesr::mcode(k).unwrap().raw.unwrap());
            json!(matter_qb64(k, &raw))
        }
        7 => {
            let mut b = good.into_bytes();
            let n = b.len();
            let i = r.range(4, n - 1);
            b[i] = *r.pick(b"+/= .~");
            json!(String::from_utf8(b).unwrap())
        }
        _ => json!({"k": good}),
    }
}

fn bad_threshold(r: &mut Rng) -> J {
    let j = r
        .pick(&[
            J::Null, json!(true), json!([]), json!([[]]), json!({}), json!(""), json!("x"), json!("-1"), json!(-1), json!("1/2"), json!(["1/2"]),
            json!(["1/2", "1/3"]), json!([["1/2", "1/2"], ["1/3"]]), json!(["2"]), json!(["1/0"]), json!(["a"]), json!([1, 1]), json!([null]),
            json!([["1"], "1"]), json!("[]"), json!("[\"1/2\"]"), json!("[[]]"), json!("{}"), json!("100000000"), json!(4294967296i64), json!(1.5), json!(["-1/2", "1", "1"]),
            json!("["), json!("[\"1\""), json!("1.0"), json!(" 1"), json!("1 "), json!("\n2"), json!("2\n"), json!("0x2"), json!("1\0"), json!("\u{feff}1"), json!("+1"), json!("1_0"), json!("１"), json!([" 1"]), json!(["1 ", "1"]), json!("\"1\""), json!("ffffffffffffffffffffffffffffffffff"),
        ])
        .clone();
    j
}

pub fn c21_malformed(c: &mut Case) {
    let e = key_event(&mut c.rng);
    let field = *c.rng.pick(&["k", "n", "b", "kt", "nt", "s", "f", "i", "t"]);
    let mut m = e.map.clone();
    let missing = c.rng.chance(1, 4);
    // (what the accessor may answer)
    let mut empty_ok = false;
    if missing {
        m.shift_remove(field);
    } else {
        let v = match field {
            "k" | "n" | "b" => {
                if c.rng.chance(1, 4) {
                    empty_ok = true;
                    c.rng.pick(&[J::Null, json!("x"), json!({}), json!(5), json!({"0": "x"}), json!(true)]).clone()
                } else {
                    let dig = field == "n";
                    let n = c.rng.range(1, 4);
                    let at = c.rng.below(n);
                    J::Array((0..n).map(|i| if i == at { bad_element(&mut c.rng, dig) } else if dig { json!(digest(&mut c.rng, "E")) } else { json!(key_text(&mut c.rng, "D")) }).collect())
                }
            }
            "kt" | "nt" => bad_threshold(&mut c.rng),
            "s" => bad_number(&mut c.rng),
            "f" => match c.rng.below(7) {
                5 | 6 => {
                    let t = matter_qb64("0A", &c.rng.bytes(16));
                    json!(format!("{}{t}", c.rng.pick(&[" ", "\n", "\t", "\0", "\u{feff}", "=", "\""])))
                }
                0 => json!("0"),
                1 => J::Null,
                2 => json!(5),
                3 => json!(key_text(&mut c.rng, "D")),
                _ => {
                    let t = matter_qb64("0A", &c.rng.bytes(16));
                    json!(&t[..c.rng.below(t.len())])
                }
            },
            _ => c.rng.pick(&[J::Null, json!(1), json!([]), json!(["x"]), json!({"i": "x"}), json!(true), json!(0.5)]).clone(),
        };
        if m.contains_key(field) {
            m[field] = v;
        } else {
            m.insert(field.into(), v);
        }
    }
    let text = clip(&dump(&J::Object(m.clone())));
    let ctx = || text.clone();
    let Some(s) = make(c, &m) else { return };
    let absent = |n: usize| missing && n == 0;
    let verdict: Option<(bool, String)> = match field {
        "k" => c.total("verfers", ctx, || es(s.verfers())).map(|v| (match &v { Err(_) => !missing, Ok(v) => absent(v.len()) || (empty_ok && v.is_empty()) }, format!("{v:?}"))),
        "n" => c.total("digers", ctx, || es(s.digers())).map(|v| (match &v { Err(_) => !missing, Ok(v) => absent(v.len()) || (empty_ok && v.is_empty()) }, format!("{v:?}"))),
        "b" => c.total("werfers", ctx, || es(s.werfers())).map(|v| (match &v { Err(_) => !missing, Ok(v) => absent(v.len()) || (empty_ok && v.is_empty()) }, format!("{v:?}"))),
        "kt" => c.total("tholder", ctx, || es(s.tholder())).map(|v| (match &v { Err(_) => !missing, Ok(v) => missing && v.is_none() }, format!("{v:?}"))),
        "nt" => c.total("ntholder", ctx, || es(s.ntholder())).map(|v| (match &v { Err(_) => !missing, Ok(v) => missing && v.is_none() }, format!("{v:?}"))),
        "s" => {
            let a = c.total("sner", ctx, || es(s.sner()));
            c.check(matches!(a, Some(Err(_))), "made-up:sner", || format!("{a:?} {text}"));
            c.total("sn", ctx, || es(s.sn())).map(|v| (v.is_err(), format!("{v:?}")))
        }
        "f" => {
            let a = c.total("fn", ctx, || es(s._fn()));
            c.check(matches!(a, Some(Err(_))), "made-up:fn", || format!("{a:?} {text}"));
            c.total("fner", ctx, || es(s.fner())).map(|v| (match &v { Err(_) => !missing, Ok(v) => missing && v.is_none() }, format!("{v:?}")))
        }
        "i" => {
            let a = c.total("preb", ctx, || es(s.preb()));
            c.check(matches!(a, Some(Err(_))), "made-up:preb", || format!("{a:?} {text}"));
            c.total("pre", ctx, || es(s.pre())).map(|v| (v.is_err(), format!("{v:?}")))
        }
        _ => c.total("est", ctx, || es(s.est())).map(|v| (v.is_err(), format!("{v:?}"))),
    };
    if let Some((ok, got)) = verdict {
        c.check(ok, &format!("made-up:{field}"), || format!("{} got {} {text}", if missing { "missing" } else { "malformed" }, clip(&got)));
    }
    c.ev(&format!("{} {field}", if missing { "missing" } else { "malformed" }));
    c.ev("malformed events read");
    // the other accessors are not disturbed
    if field != "s" {
        let sn = c.total("sn", ctx, || es(s.sn()));
        c.check(sn == Some(Ok(e.sn)), "sn", || format!("{sn:?} {text}"));
    }
    if field != "i" {
        let p = c.total("pre", ctx, || es(s.pre()));
        c.check(p == Some(Ok(e.pre.clone())), "pre", || format!("{p:?} {text}"));
    }
    if field != "k" {
        let v = c.total("verfers", ctx, || es(s.verfers()).map(|v| texts(&v)));
        c.check(v == Some(Ok(e.keys.clone().unwrap_or_default())), "verfers", || format!("{v:?} {text}"));
    }
    c.seen(&text);
}

// ---------------------------------------------------------------- C22

/// fields named nearly like those with accessors
fn decoys(r: &mut Rng, m: &mut Map<String, J>) {
    for _ in 0..r.range(1, 4) {
        let k = *r.pick(&["I", "S", "A", "E", "RI", "Ri", "rI", "D", "ii", "issuer", "schema", "subject", "status", "chains", "edges", "registry", "rd", "r", "ri ", " i", "a\0", "sch", "iss", "sub", "at", "ed"]);
        if m.contains_key(k) {
            continue;
        }
        let v = if r.chance(2, 3) { json!(digest(r, "E")) } else { jsn::value(r, 2) };
        let at = r.range(1, m.len());
        *m = jsn::insert_at(m, at, k, v);
    }
}

pub fn c22_creds(c: &mut Case) {
    let code = if c.rng.bool() { "E" } else { *c.rng.pick(&DIGEST_CODES) };
    let mut m = event(&mut c.rng, "ACDC", code);
    // the fields with accessors, present or absent, in any place after the version
    for (k, always) in [("i", true), ("s", true), ("ri", false), ("a", false), ("e", false)] {
        m.shift_remove(k);
        if !always && c.rng.chance(2, 5) {
            continue;
        }
        let at = c.rng.range(1, m.len());
        let v = match k {
            "i" | "s" | "ri" => {
                if c.rng.chance(1, 4) {
                    json!(jsn::string(&mut c.rng))
                } else {
                    json!(digest(&mut c.rng, "E"))
                }
            }
            // compact, a block, a list of blocks, or anything
            _ => match c.rng.below(6) {
                0 => json!(digest(&mut c.rng, "E")),
                1 | 2 => jsn::block(&mut c.rng, k == "e"),
                3 => {
                    let n = c.rng.range(1, 3);
                    J::Array((0..n).map(|_| jsn::block(&mut c.rng, k == "e")).collect())
                }
                _ => jsn::value(&mut c.rng, 3),
            },
        };
        m = jsn::insert_at(&m, at, k, v);
    }
    faithful::<Creder>(c, "ACDC", cre_ked, cre_raw, cre_sad, &m, code);
    // fields with nearby names, which no accessor may take for its own
    if c.rng.chance(1, 3) {
        decoys(&mut c.rng, &mut m);
    }
    let text = clip(&dump(&J::Object(m.clone())));
    let want = jsn::sized(&m).unwrap();
    let mut bytes = dump(&J::Object(want.clone())).into_bytes();
    bytes.extend(trailing(&mut c.rng));
    let v = build(&J::Object(m.clone()));
    for (how, x, m) in [("fields", es(Creder::new_with_ked(&v, Some(code), None)), want.clone()), ("bytes", cre_raw(&bytes, Some(code)), reread(&want))] {
        let Ok(x) = x else { continue }; // reported above
        let ctx = || text.clone();
        let str_of = |k: &str| m.get(k).and_then(|x| x.as_str()).map(|s| s.to_string());
        let g = c.total("crd", ctx, || es(x.crd().to_json()));
        c.check(g == Some(Ok(dump(&J::Object(m.clone())))), "crd", || format!("{how} {text}"));
        let g = c.total("issuer", ctx, || es(x.issuer()));
        c.check(g == Some(Ok(str_of("i").unwrap())), "issuer", || format!("{how} {g:?} {text}"));
        let g = c.total("schema", ctx, || es(x.schema()));
        c.check(g == Some(Ok(str_of("s").unwrap())), "schema", || format!("{how} {g:?} {text}"));
        let g = c.total("subject", ctx, || es(x.subject().to_json()));
        c.check(g == Some(Ok(dump(m.get("a").unwrap_or(&J::Null)))), "subject", || format!("{how} {g:?} {text}"));
        let g = c.total("status", ctx, || es(x.status()));
        c.check(g == Some(Ok(str_of("ri"))), "status", || format!("{how} {g:?} {text}"));
        let g = c.total("chains", ctx, || es(x.chains()).map(|v| v.to_json().unwrap_or_default()));
        c.check(g == Some(Ok(dump(m.get("e").unwrap_or(&json!({}))))), "chains", || format!("{how} {g:?} {text}"));
        c.ev("credentials read");
        for k in ["ri", "a", "e"] {
            c.ev(&format!("{k} {}", if m.contains_key(k) { "present" } else { "absent" }));
        }
    }
    c.sample(|| text.clone());
    c.seen(&text);
}

pub fn c22_refuse(c: &mut Case) {
    refusals::<Creder>(c, "ACDC", cre_ked, cre_raw);
}

pub fn c22_malformed(c: &mut Case) {
    let mut m = event(&mut c.rng, "ACDC", "E");
    for k in ["i", "s", "ri"] {
        m.shift_remove(k);
        let v = json!(digest(&mut c.rng, "E"));
        m.insert(k.into(), v);
    }
    let field = *c.rng.pick(&["i", "s", "ri"]);
    let missing = c.rng.chance(1, 3);
    if missing {
        m.shift_remove(field);
    } else {
        let d = digest(&mut c.rng, "E");
        let text = json!(d);
        // a string one step inside is not the field's own
        let inner = c.rng.pick(&["i", "d", "s", "ri", "id", "$id", "@id", "said", "value"]).to_string();
        m[field] = match c.rng.below(10) {
            0 => json!([text]),
            1 => json!([text, text]),
            2 | 3 => {
                let mut o = Map::new();
                o.insert(inner, text);
                J::Object(o)
            }
            4 => json!({"d": d, "i": d, "s": d, "$id": d, "id": d, "ri": d, "v": d}),
            _ => c.rng.pick(&[J::Null, json!(1), json!([]), json!(["x"]), json!({"i": "x"}), json!(true), json!(false), json!(0), json!({}), json!(1.5)]).clone(),
        };
    }
    if c.rng.chance(1, 2) {
        m.insert("a".into(), json!({"i": digest(&mut c.rng, "E"), "s": digest(&mut c.rng, "E"), "ri": digest(&mut c.rng, "E")}));
        decoys(&mut c.rng, &mut m);
    }
    let text = clip(&dump(&J::Object(m.clone())));
    let ctx = || text.clone();
    let v = build(&J::Object(m.clone()));
    let Some(Ok(x)) = c.total("from fields", ctx, || cre_ked(&v, None, None)) else {
        c.fail("refused:fields", text);
        return;
    };
    let (a, b, r) = (c.total("issuer", ctx, || es(x.issuer())), c.total("schema", ctx, || es(x.schema())), c.total("status", ctx, || es(x.status())));
    let s = |k: &str| m.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
    let fine = |g: &Option<Result<String, String>>, k: &str| match (g, s(k)) {
        (Some(Ok(g)), Some(w)) => *g == w,
        (Some(Err(_)), None) => true,
        _ => false,
    };
    c.check(fine(&a, "i"), "issuer", || format!("{a:?} {text}"));
    c.check(fine(&b, "s"), "schema", || format!("{b:?} {text}"));
    let ok = match &r {
        Some(Ok(None)) => !m.contains_key("ri"),
        Some(Ok(Some(g))) => s("ri").as_deref() == Some(g),
        Some(Err(_)) => m.contains_key("ri") && s("ri").is_none(),
        None => false,
    };
    c.check(ok, "status", || format!("{r:?} {text}"));
    c.ev("malformed credentials read");
    c.seen(&text);
}

pub fn c22_altered(c: &mut Case) {
    altered::<Creder>(c, "ACDC", cre_raw);
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "an execution is one random event built, read back with random trailing data, copied, edited and printed, or one malformed event refused, or one randomly altered event judged against its bytes; distinct by event bytes",
            sections: vec![sec("events", 15_000, 120_000, c20_events), sec("refuse", 1_500, 10_000, c20_refuse), sec("altered", 120_000, 800_000, c20_altered)],
            require: vec![("built from fields", 2_400), ("read from bytes", 7_000), ("read from other layouts", 2_000), ("bytes refused", 10_000), ("fields refused", 8_000), ("pretty printed", 15_000), ("altered refused", 5_000), ("altered accepted and consistent", 1_000)],
            assumptions: vec!["serde_json reads and prints JSON; the version field is first"],
            termination: false,
        },
        Property {
            id: "C21",
            rule: "an execution is one random key event, built from fields or bytes, with every accessor read twice and compared with the fields, or one event with a missing or malformed field; distinct by event",
            sections: vec![sec("read", 50_000, 250_000, c21_read), sec("malformed", 90_000, 400_000, c21_malformed)],
            require: vec![("events read", 4_900), ("keys read", 10_000), ("digests read", 10_000), ("witnesses read", 10_000), ("numeric thresholds", 5_000), ("weighted thresholds", 2_000), ("establishment", 1_500), ("other events", 1_000), ("malformed events read", 8_500), ("malformed k", 500), ("malformed n", 500), ("malformed b", 500), ("malformed kt", 500), ("malformed s", 500), ("missing s", 100), ("missing f", 100)],
            assumptions: vec!["text of keys and digests has no surplus characters after the material"],
            termination: false,
        },
        Property {
            id: "C22",
            rule: "an execution is one random credential built, read back and read by every accessor, one malformed credential, or one altered credential; distinct by credential",
            sections: vec![sec("creds", 12_000, 100_000, c22_creds), sec("refuse", 1_200, 10_000, c22_refuse), sec("malformed", 18_000, 100_000, c22_malformed), sec("altered", 60_000, 400_000, c22_altered)],
            require: vec![("built from fields", 1_900), ("read from bytes", 5_500), ("credentials read", 3_900), ("bytes refused", 8_000), ("fields refused", 6_000), ("malformed credentials read", 2_900), ("ri present", 1_000), ("ri absent", 500), ("e absent", 500), ("a absent", 500)],
            assumptions: vec!["serde_json reads and prints JSON; the version field is first"],
            termination: false,
        },
    ]
}
