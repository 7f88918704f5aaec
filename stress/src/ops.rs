//! A fixed list of operations on the library, each a deterministic function of its number, so that
//! the same operation can be run alone, in any history and on any number of threads and compared.
//! Inputs come from small pools of near-identical values (same length, same prefix, same path), so
//! that hidden state keyed too coarsely shows.
use cesride::common::{deversify, sizeify, sniff, versify, Version};
use cesride::data::Value;
use cesride::*;
use std::fmt::Debug;
use std::sync::OnceLock;

pub struct R(pub u64);
impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

fn show<T: Debug>(r: cesride::Result<T>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error {e}"),
    }
}

/// the operation, with the value it is applied to observed before and after
fn pure<S: Debug, T: Debug>(s: &S, f: impl Fn(&S) -> cesride::Result<T>) -> String {
    let before = format!("{s:?}");
    let a = show(f(s));
    let b = show(f(s));
    let after = format!("{s:?}");
    let mut out = a.clone();
    if a != b {
        out.push_str(&format!(" CHANGED-RESULT {b}"));
    }
    if before != after {
        out.push_str(&format!(" CHANGED-VALUE {before} -> {after}"));
    }
    out
}

const SEEDS: [&str; 6] = [
    "0123456789abcdef0123456789abcdef",
    "0123456789abcdef0123456789abcdeg",
    "1123456789abcdef0123456789abcdef",
    "0123456789abcdeg0123456789abcdef",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ012346",
];
const SERS: [&str; 8] = ["", "a", "b", "abcdef", "abcdeg", "bbcdef", "abcdefg", "{\"v\":\"KERI10JSON000011_\"}"];
const DCODES: [&str; 9] = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
const SUITES: [&str; 3] = ["A", "J", "Q"];
const BEXTS: [&str; 10] = ["", "a", "b", "ab", "abc", "abcd", "-a-b", "-a-0-1", "not base64!", "_-_-"];
const PATHS: [&str; 4] = ["", "0", "1", "signify:controller00"];
const SALTS: [&str; 3] = ["g0123456789abcde", "g0123456789abcdf", "h0123456789abcde"];
const SITHS: [&str; 12] = [
    "1", "2", "b", "[\"1/2\",\"1/2\",\"1/4\"]", "[\"1/2\",\"1/3\",\"1/6\"]", "[[\"1/2\",\"1/2\"],[\"1\"]]", "[[\"1/2\",\"1/2\"],[\"1\",\"1\"]]", "[]",
    "[\"1/3\"]", "zz", "[\"1/0\"]", "[[\"1/2\",\"1/2\",\"1/4\"],[\"1\",\"1/3\"]]",
];
const DTS: [&str; 6] = [
    "2020-08-22T17:50:09.988921+00:00",
    "2020-08-22T17:50:09.988922+00:00",
    "2020-08-22T17:50:09.988921-01:00",
    "2020-08-22T17:50:09.988921+01:00",
    "not a date",
    "1999-01-01T00:00:00.000000+00:00",
];
const VERSIONS: [&str; 8] = [
    "KERI10JSON000011_", "KERI10JSON000012_", "ACDC10JSON000011_", "KERI11JSON000011_", "KERI10CBOR000011_", "KERI10JSON00001_", "XXXX10JSON000011_", "ACDC10JSONffffff_",
];

fn signer(r: &mut R) -> (Signer, &'static str) {
    let s = *r.pick(&SUITES);
    (Signer::new_with_raw(r.pick(&SEEDS).as_bytes(), None, Some(s)).unwrap(), s)
}

fn doc(r: &mut R) -> Value {
    let mut d = dat(r, "v", &["KERI10JSON000000_", "ACDC10JSON000000_", "KERI10JSONffffff_"]);
    put(&mut d, "d", Value::from(""));
    put(&mut d, "a", Value::from(*r.pick(&["x", "y", "z"])));
    put(&mut d, "n", Value::from(*r.pick(&[1i64, 2, 3])));
    if r.below(2) == 0 {
        let mut o = cesride::data::Object::new();
        o.insert("b".into(), Value::from(*r.pick(&["p", "q"])));
        o.insert("l".into(), Value::Array(vec![Value::from(1i64), Value::from("k")]));
        put(&mut d, "a", Value::Object(o));
    }
    d
}
fn dat(r: &mut R, k: &str, v: &[&str]) -> Value {
    let mut o = cesride::data::Object::new();
    o.insert(k.into(), Value::from(*r.pick(v)));
    Value::Object(o)
}
fn put(v: &mut Value, k: &str, x: Value) {
    if let Value::Object(o) = v {
        o.insert(k.into(), x);
    }
}

fn event(r: &mut R) -> cesride::Result<Value> {
    let (s, _) = signer(r);
    let (t, _) = signer(r);
    let n = Diger::new_with_ser(t.verfer().qb64()?.as_bytes(), None)?;
    let mut o = cesride::data::Object::new();
    o.insert("v".into(), Value::from("KERI10JSON000000_"));
    o.insert("t".into(), Value::from(*r.pick(&["icp", "icp", "rot", "ixn", "dip"])));
    o.insert("d".into(), Value::from(""));
    o.insert("i".into(), Value::from(s.verfer().qb64()?.as_str()));
    o.insert("s".into(), Value::from(*r.pick(&["0", "1", "a", "ff"])));
    o.insert("kt".into(), Value::from(*r.pick(&["1", "2"])));
    o.insert("k".into(), Value::Array(vec![Value::from(s.verfer().qb64()?.as_str()), Value::from(t.verfer().qb64()?.as_str())]));
    o.insert("nt".into(), Value::from("1"));
    o.insert("n".into(), Value::Array(vec![Value::from(n.qb64()?.as_str())]));
    o.insert("bt".into(), Value::from("0"));
    o.insert("b".into(), Value::Array(vec![]));
    o.insert("a".into(), Value::Array(vec![]));
    let (_, v) = Saider::saidify(&Value::Object(o), None, None, None, None)?;
    Ok(v)
}

/// messages longer than any block, buffer or chunk of the hashes
fn long(r: &mut R) -> Vec<u8> {
    let n = [200usize, 513, 600, 1025, 3000, 9000][r.below(6)];
    let (a, b) = (r.below(26), 1 + r.below(5));
    (0..n).map(|i| b'a' + ((a + i * b + i / 97) % 26) as u8).collect()
}

/// values built once and then read by every thread
pub struct Shared {
    signers: Vec<Signer>,
    serders: Vec<Serder>,
    creder: Creder,
    docs: Vec<Value>,
    saiders: Vec<Saider>,
    tholders: Vec<Tholder>,
    pathers: Vec<Pather>,
    salter: Salter,
    sigers: Vec<(Siger, usize, usize)>,
    prefixers: Vec<(Prefixer, Value)>,
}

pub fn shared() -> &'static Shared {
    static S: OnceLock<Shared> = OnceLock::new();
    S.get_or_init(|| {
        let mut r = R(77);
        let mut signers = vec![];
        for s in SUITES {
            for k in &SEEDS[..4] {
                signers.push(Signer::new_with_raw(k.as_bytes(), None, Some(s)).unwrap());
            }
        }
        let serders: Vec<Serder> = (0..4).map(|_| Serder::new_with_ked(&event(&mut r).unwrap(), None, None).unwrap()).collect();
        let mut docs = vec![];
        let mut saiders = vec![];
        for i in 0..6 {
            let (s, d) = Saider::saidify(&doc(&mut r), Some(DCODES[i]), None, None, None).unwrap();
            docs.push(d);
            saiders.push(s);
        }
        let tholders = SITHS.iter().filter_map(|s| Tholder::new_with_sith(&Value::from(*s)).ok()).collect();
        let pathers = ["-a", "-a-b", "-a-l-0", "-n", "-v", "-missing", "-0", "-1-1"].iter().map(|p| Pather::new_with_bext(p).unwrap()).collect();
        let mut sigers = vec![];
        for (i, s) in signers.iter().enumerate() {
            for (j, m) in SERS.iter().enumerate().take(3) {
                sigers.push((s.sign_indexed(m.as_bytes(), false, j as u32, None).unwrap(), i, j));
            }
        }
        let mut o = cesride::data::Object::new();
        for (k, v) in [("v", "ACDC10JSON000000_"), ("d", ""), ("i", "issuer"), ("ri", "registry"), ("s", "schema")] {
            o.insert(k.into(), Value::from(v));
        }
        o.insert("a".into(), doc(&mut r));
        let (_, cv) = Saider::saidify(&Value::Object(o), None, None, None, None).unwrap();
        let prefixers = (0..60)
            .filter_map(|_| {
                let e = event(&mut r).unwrap();
                Some((Prefixer::new_with_ked(&e, None, Some("E")).ok()?, e))
            })
            .take(2)
            .collect();
        Shared {
            signers,
            serders,
            creder: Creder::new_with_ked(&cv, None, None).unwrap(),
            docs,
            saiders,
            tholders,
            pathers,
            salter: Salter::new_with_raw(SALTS[0].as_bytes(), None, None).unwrap(),
            sigers,
            prefixers,
        }
    })
}

type Op = fn(&mut R) -> String;

macro_rules! fns { ($( $name:ident : $f:expr ),* $(,)?) => { vec![ $( (stringify!($name), $f as Op) ),* ] } }

fn text<M: Matter>(m: cesride::Result<M>) -> String {
    match m {
        Ok(m) => format!("{} {} {} {} {:?} {:?}", m.code(), m.size(), show(m.qb64()), show(m.qb64b()), show(m.qb2()), m.raw()),
        Err(e) => format!("error {e}"),
    }
}

pub fn table() -> Vec<(&'static str, Op)> {
    fns![
        diger_new: |r| text(Diger::new_with_ser(r.pick(&SERS).as_bytes(), Some(*r.pick(&DCODES)))),
        diger_verify: |r| {
            let d = Diger::new_with_ser(r.pick(&SERS).as_bytes(), Some(*r.pick(&DCODES))).unwrap();
            pure(&d, |d| SERS.iter().map(|s| d.verify(s.as_bytes())).collect::<cesride::Result<Vec<bool>>>())
        },
        diger_compare: |r| {
            let d = Diger::new_with_ser(r.pick(&SERS).as_bytes(), Some(*r.pick(&DCODES))).unwrap();
            let e = Diger::new_with_ser(r.pick(&SERS).as_bytes(), Some(*r.pick(&DCODES))).unwrap();
            let q = e.qb64b().unwrap();
            pure(&(d, e, q), |(d, e, q)| SERS.iter().map(|s| Ok((d.compare(s.as_bytes(), None, Some(e))?, d.compare(s.as_bytes(), Some(q), None)?))).collect::<cesride::Result<Vec<_>>>())
        },
        matter_texts: |r| {
            let (s, _) = signer(r);
            let v = s.verfer();
            let q = v.qb64().unwrap();
            let b = v.qb2().unwrap();
            format!("{} {} {}", text(Verfer::new_with_qb64(&q)), text(Verfer::new_with_qb2(&b)), text(Verfer::new_with_qb64b(q.as_bytes())))
        },
        matter_refuse: |r| {
            let (s, _) = signer(r);
            let mut q = s.verfer().qb64().unwrap();
            let i = r.below(q.len());
            q.replace_range(i..i + 1, *r.pick(&["=", "A", "Z", "_", " "]));
            text(Verfer::new_with_qb64(&q))
        },
        verfer_verify: |r| {
            let (s, _) = signer(r);
            let sig = s.sign_unindexed(r.pick(&SERS).as_bytes()).unwrap().raw();
            pure(&s.verfer(), |v| SERS.iter().map(|m| v.verify(&sig, m.as_bytes())).collect::<cesride::Result<Vec<bool>>>())
        },
        verfer_other: |r| {
            let (s, _) = signer(r);
            let (t, _) = signer(r);
            let m = *r.pick(&SERS);
            let sig = s.sign_unindexed(m.as_bytes()).unwrap().raw();
            pure(&t.verfer(), |v| v.verify(&sig, m.as_bytes()))
        },
        sign_unindexed: |r| {
            let (s, suite) = signer(r);
            let m = *r.pick(&SERS);
            let g = s.sign_unindexed(m.as_bytes()).unwrap();
            // the first two suites' signatures are a function of key and message
            let det = if suite == "A" { text(cesride::Result::Ok(g.clone())) } else { g.code() };
            format!("{det} {} {}", show(s.verfer().verify(&g.raw(), m.as_bytes())), show(g.verfer().qb64()))
        },
        sign_indexed: |r| {
            let (s, suite) = signer(r);
            let m = *r.pick(&SERS);
            let (only, i) = (r.below(2) == 0, *r.pick(&[0u32, 1, 63, 64, 1000]));
            match s.sign_indexed(m.as_bytes(), only, i, None) {
                Ok(g) => format!("{} {} {} {} {}", g.code(), g.index(), g.ondex(), if suite == "A" { show(g.qb64()) } else { String::new() }, show(g.verfer().verify(&g.raw(), m.as_bytes()))),
                Err(e) => format!("error {e}"),
            }
        },
        signer_new: |r| {
            let (s, _) = signer(r);
            let q = s.qb64().unwrap();
            let t = r.below(2) == 0;
            let a = Signer::new_with_qb64(&q, Some(t)).unwrap();
            format!("{} {}", show(a.qb64()), show(a.verfer().qb64()))
        },
        signer_fresh: |_| {
            let a = Signer::new_with_defaults(None, None).unwrap();
            let b = Signer::new_with_defaults(None, None).unwrap();
            let g = a.sign_unindexed(b"m").unwrap();
            format!("{} {} {}", a.raw() != b.raw(), show(a.verfer().verify(&g.raw(), b"m")), show(b.verfer().verify(&g.raw(), b"m")))
        },
        salter_fresh: |_| {
            let a = Salter::new_with_defaults(None).unwrap();
            let b = Salter::new_with_defaults(None).unwrap();
            format!("{} {}", a.raw() != b.raw(), a.code())
        },
        stretch: |r| {
            let s = Salter::new_with_raw(r.pick(&SALTS).as_bytes(), None, None).unwrap();
            let (p, n) = (*r.pick(&PATHS), *r.pick(&[32usize, 16, 33]));
            show(s.stretch(Some(n), Some(p), None, Some(true)))
        },
        salter_signer: |r| {
            let s = Salter::new_with_raw(r.pick(&SALTS).as_bytes(), None, None).unwrap();
            let g = s.signer(Some(*r.pick(&SUITES)), Some(r.below(2) == 0), Some(*r.pick(&PATHS)), None, Some(true));
            match g {
                Ok(g) => format!("{} {}", show(g.qb64()), show(g.verfer().qb64())),
                Err(e) => format!("error {e}"),
            }
        },
        salter_signers: |r| {
            let s = Salter::new_with_raw(r.pick(&SALTS).as_bytes(), None, None).unwrap();
            let (n, st, p) = (r.below(3), r.below(3), *r.pick(&PATHS));
            match s.signers(Some(n), Some(st), Some(p), Some("A"), None, None, Some(true)) {
                Ok(g) => format!("{:?}", g.iter().map(|g| show(g.verfer().qb64())).collect::<Vec<_>>()),
                Err(e) => format!("error {e}"),
            }
        },
        cigar: |r| {
            let (s, _) = signer(r);
            let (t, _) = signer(r);
            let raw = vec![r.below(256) as u8; 64];
            let c = Cigar::new_with_raw(&raw, Some(&s.verfer()), Some("0B")).unwrap();
            let d = Cigar::new_with_qb64(&c.qb64().unwrap(), Some(&t.verfer())).unwrap();
            format!("{} {} {}", show(c.qb64()), show(c.verfer().qb64()), show(d.verfer().qb64()))
        },
        siger: |r| {
            let raw = vec![r.below(256) as u8; 64];
            let i = *r.pick(&[0u32, 1, 5, 63, 64, 4095, 1234]);
            let g = Siger::new_with_raw(&raw, None, Some(i), None, Some(*r.pick(&["A", "B", "C", "D", "E", "F", "2A", "2A", "2B", "2C", "2E"])));
            match g {
                Ok(g) => {
                    let q = g.qb64().unwrap();
                    let h = Siger::new_with_qb64(&q, None).unwrap();
                    let b = Siger::new_with_qb2(&g.qb2().unwrap(), None).unwrap();
                    format!("{q} {} {} {:?} {} {} {}", h.index(), h.ondex(), show(h.qb2()), b.index(), b.ondex(), show(b.qb64()))
                }
                Err(e) => format!("error {e}"),
            }
        },
        counter: |r| {
            let c = Counter::new_with_code_and_count(*r.pick(&["-A", "-B", "-V", "-0V", "-0V", "--AAA", "--AAA"]), if r.below(3) == 0 { *r.pick(&[0u32, 1, 63, 64, 4095, 4096]) } else { (r.next() % 262_144) as u32 >> r.below(7) });
            match c {
                Ok(c) => {
                    let q = c.qb64().unwrap();
                    let d = Counter::new_with_qb64(&q).unwrap();
                    let e = Counter::new_with_qb2(&c.qb2().unwrap()).unwrap();
                    format!("{q} {} {} {}", d.count(), e.count(), e.code())
                }
                Err(e) => format!("error {e}"),
            }
        },
        number: |r| {
            let n = if r.below(2) == 0 { *r.pick(&[0u128, 1, 255, 65535, 65536, u64::MAX as u128, u128::MAX]) } else { (((r.next() as u128) << 64) | r.next() as u128) >> r.below(128) };
            let a = Number::new_with_num(n).unwrap();
            let b = Number::new_with_qb64(&a.qb64().unwrap()).unwrap();
            let d = Number::new_with_qb2(&a.qb2().unwrap()).unwrap();
            format!("{} {} {} {} {} {}", text(cesride::Result::Ok(a.clone())), show(a.num()), show(a.numh()), show(a.positive()), show(b.num()), show(d.numh()))
        },
        number_hex: |r| {
            let h = *r.pick(&["0", "a", "ff", "10000", "g", "", "-1"]);
            match Number::new_with_numh(h) {
                Ok(n) => format!("{} {}", show(n.num()), show(n.qb64())),
                Err(e) => format!("error {e}"),
            }
        },
        seqner: |r| {
            let n = if r.below(2) == 0 { *r.pick(&[0u128, 1, 255, u128::MAX]) } else { (((r.next() as u128) << 64) | r.next() as u128) >> r.below(128) };
            let s = Seqner::new_with_sn(n).unwrap();
            let t = Seqner::new_with_snh(&s.snh().unwrap()).unwrap();
            let b = Seqner::new_with_qb2(&s.qb2().unwrap()).unwrap();
            format!("{} {} {} {} {}", show(s.qb64()), show(t.sn()), show(t.snh()), show(b.sn()), text(cesride::Result::Ok(b)))
        },
        dater: |r| {
            let own = format!("20{:02}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}+00:00", r.below(100), 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60), r.below(1_000_000));
            match Dater::new_with_dts(if r.below(2) == 0 { *r.pick(&DTS) } else { &own }, None) {
                Ok(d) => format!("{} {} {} {}", show(d.qb64()), show(d.dts()), show(d.dtsb()), text(Dater::new_with_qb2(&d.qb2().unwrap()))),
                Err(e) => format!("error {e}"),
            }
        },
        bexter: |r| {
            let n = if r.below(12) == 0 { 16_384 + r.below(12) } else { r.below(90) };
            let own: String = (0..n).map(|_| *r.pick(&['A', 'b', 'Z', '0', '9', '-', '_', 'q'])).collect();
            match Bexter::new_with_bext(if r.below(3) == 0 { *r.pick(&BEXTS) } else { &own }) {
                Ok(b) => {
                    let back = Bexter::new_with_qb2(&b.qb2().unwrap()).unwrap();
                    let mut out = format!("{} {} {} {}", b.code(), back.code(), show(back.bext().map(|t| t == b.bext().unwrap_or_default())), show(b.qb64()));
                    if out.len() > 600 {
                        out = format!("{} {} {}", &out[..300], out.len(), text(Diger::new_with_ser(out.as_bytes(), None)));
                    }
                    out
                }
                Err(e) => format!("error {e}"),
            }
        },
        stream: |r| {
            // items one after another, from text and from binary
            let (mut t, mut b) = (String::new(), vec![]);
            let n = 1 + r.below(5);
            for _ in 0..n {
                match r.below(4) {
                    0 => { let m = Number::new_with_num(r.next() as u128 >> r.below(64)).unwrap(); t += &m.qb64().unwrap(); b.extend(m.qb2().unwrap()); }
                    1 => { let m = Diger::new_with_raw(&(0..32).map(|_| r.next() as u8).collect::<Vec<u8>>(), Some(*r.pick(&["E", "F", "I"]))).unwrap(); t += &m.qb64().unwrap(); b.extend(m.qb2().unwrap()); }
                    2 => { let m = Bexter::new_with_bext(&format!("x{}", r.next())).unwrap(); t += &m.qb64().unwrap(); b.extend(m.qb2().unwrap()); }
                    _ => { let m = Seqner::new_with_sn(r.next() as u128).unwrap(); t += &m.qb64().unwrap(); b.extend(m.qb2().unwrap()); }
                }
            }
            let mut out = String::new();
            let (mut i, mut j) = (0, 0);
            while i < t.len() && j < b.len() {
                let size = match &t[i..i + 1] {
                    "E" | "F" | "I" => { let m = Diger::new_with_qb64(&t[i..]).unwrap(); out += &text(Diger::new_with_qb2(&b[j..])); m.full_size().unwrap() }
                    "4" | "5" | "6" => { let m = Bexter::new_with_qb64(&t[i..]).unwrap(); out += &show(Bexter::new_with_qb2(&b[j..]).unwrap().bext()); m.full_size().unwrap() }
                    "0" if &t[i..i + 2] == "0A" => { let m = Seqner::new_with_qb64(&t[i..]).unwrap(); out += &show(Seqner::new_with_qb2(&b[j..]).unwrap().sn()); m.full_size().unwrap() }
                    _ => { let m = Number::new_with_qb64(&t[i..]).unwrap(); out += &show(Number::new_with_qb2(&b[j..]).unwrap().num()); m.full_size().unwrap() }
                };
                i += size;
                j += size / 4 * 3;
            }
            format!("{} {out}", i == t.len() && j == b.len())
        },
        pather: |r| {
            match Pather::new_with_bext(*r.pick(&BEXTS)) {
                Ok(b) => format!("{} {} {}", show(b.qb64()), show(b.bext()), show(b.path())),
                Err(e) => format!("error {e}"),
            }
        },
        pather_resolve: |r| {
            let w = shared();
            let d = &w.docs[r.below(w.docs.len())];
            let p = &w.pathers[r.below(w.pathers.len())];
            pure(&(d, p), |(d, p)| p.resolve(d))
        },
        pather_pairs: |r| {
            let w = shared();
            let p = &w.pathers[r.below(w.pathers.len())];
            let q = &w.pathers[r.below(w.pathers.len())];
            pure(&(p, q), |(p, q)| Ok((p.starts_with(q)?, p.strip(q)?.bext()?, p.root(q)?.bext()?)))
        },
        pather_tail: |r| {
            let w = shared();
            let p = &w.pathers[r.below(w.pathers.len())];
            let s = &w.serders[r.below(w.serders.len())];
            pure(&(p, s), |(p, s)| p.tail(s))
        },
        tholder: |r| {
            match Tholder::new_with_sith(&Value::from(*r.pick(&SITHS))) {
                Ok(t) => format!("{} {} {} {} {}", show(t.sith()), show(t.limen()), t.size(), t.weighted(), show(t.to_json())),
                Err(e) => format!("error {e}"),
            }
        },
        tholder_limen: |r| {
            match Tholder::new_with_sith(&Value::from(*r.pick(&SITHS))) {
                Ok(t) => {
                    let u = Tholder::new_with_limen(&t.limen().unwrap()).unwrap();
                    let v = Tholder::new_with_thold(&t.thold()).unwrap();
                    format!("{} {} {}", u == t, v == t, show(u.sith()))
                }
                Err(e) => format!("error {e}"),
            }
        },
        tholder_satisfy: |r| {
            let w = shared();
            let t = &w.tholders[r.below(w.tholders.len())];
            let mut sets: Vec<Vec<u32>> = (0..16u32).map(|m| (0..4).filter(|b| m >> b & 1 == 1).collect()).collect();
            sets.push(vec![0, 0, 1]);
            sets.push(vec![3, 2, 1, 0, 9, 100]);
            pure(&t, |t| sets.iter().map(|s| t.satisfy(s)).collect::<cesride::Result<Vec<bool>>>())
        },
        saidify: |r| {
            let d = doc(r);
            let c = *r.pick(&DCODES);
            let l = *r.pick(&["d", "a"]);
            pure(&d, |d| {
                let (s, v) = Saider::saidify(d, Some(c), None, Some(l), None)?;
                Ok((s.qb64()?, v.to_json()?))
            })
        },
        saidify_ignore: |r| {
            let d = doc(r);
            let ig = [*r.pick(&["a", "n", "zz"])];
            pure(&d, |d| {
                let (s, v) = Saider::saidify(d, None, None, None, Some(&ig))?;
                Ok((s.qb64()?, v.to_json()?))
            })
        },
        said_verify: |r| {
            let w = shared();
            let s = &w.saiders[r.below(w.saiders.len())];
            let d = &w.docs[r.below(w.docs.len())];
            let p = *r.pick(&[None, Some(true), Some(false)]);
            let v = *r.pick(&[None, Some(true), Some(false)]);
            pure(&(s, d), |(s, d)| s.verify(d, p, v, None, None, None))
        },
        said_new: |r| {
            let w = shared();
            let d = &w.docs[r.below(w.docs.len())];
            let c = *r.pick(&DCODES);
            pure(&d, |d| Ok((Saider::new_with_sad(d, None, None, None, None)?.qb64()?, Saider::new_with_sad(d, None, None, None, Some(c))?.qb64()?)))
        },
        prefixer_basic: |r| {
            let (s, _) = signer(r);
            let mut o = cesride::data::Object::new();
            o.insert("t".into(), Value::from("icp"));
            o.insert("k".into(), Value::Array(vec![Value::from(s.verfer().qb64().unwrap().as_str())]));
            let v = Value::Object(o);
            pure(&v, |v| Prefixer::new_with_ked(v, None, Some(&s.verfer().code()))?.qb64())
        },
        prefixer_digest: |r| {
            let e = event(r).unwrap();
            pure(&e, |e| {
                let p = Prefixer::new_with_ked(e, None, Some("E"))?;
                Ok((p.qb64()?, p.verify(e, None)?))
            })
        },
        prefixer_verify: |r| {
            let w = shared();
            let (p, _) = &w.prefixers[r.below(2)];
            let (_, e) = &w.prefixers[r.below(2)];
            pure(&(p, e), |(p, e)| Ok((p.verify(e, Some(true))?, p.verify(e, Some(false))?)))
        },
        serder_ked: |r| {
            let e = event(r).unwrap();
            pure(&e, |e| {
                let s = Serder::new_with_ked(e, None, None)?;
                Ok((s.raw(), s.said()?, s.ked().to_json()?, s.size()))
            })
        },
        serder_raw: |r| {
            let e = event(r).unwrap();
            let mut raw = Serder::new_with_ked(&e, None, None).unwrap().raw();
            if r.below(3) == 0 {
                let n = raw.len();
                raw.truncate(n - 1 - r.below(n - 1));
            }
            pure(&raw, |raw| {
                let s = Serder::new_with_raw(raw)?;
                Ok((s.raw(), s.said()?, s.ked().to_json()?, s.size()))
            })
        },
        serder_reads: |r| {
            let w = shared();
            let s = &w.serders[r.below(w.serders.len())];
            pure(&s, |s| Ok((s.verfers()?.len(), s.digers()?.len(), s.werfers()?.len(), s.tholder()?.map(|t| t.size()), s.sn()?, s.pre()?, s.est()?, s.pretty(Some(40))?)))
        },
        serder_keys: |r| {
            let w = shared();
            let s = &w.serders[r.below(w.serders.len())];
            pure(&s, |s| s.verfers()?.iter().map(|v| v.qb64()).chain(s.digers()?.iter().map(|d| d.qb64())).collect::<cesride::Result<Vec<_>>>())
        },
        creder_reads: |_| {
            let w = shared();
            pure(&w.creder, |s| Ok((s.issuer()?, s.schema()?, s.status()?, s.subject().to_json()?, s.chains()?.to_json()?, s.raw())))
        },
        shared_sign: |r| {
            let w = shared();
            let s = &w.signers[r.below(w.signers.len())];
            let m = *r.pick(&SERS);
            let g = s.sign_unindexed(m.as_bytes()).unwrap();
            format!("{} {}", show(s.verfer().verify(&g.raw(), m.as_bytes())), show(s.verfer().verify(&g.raw(), b"other")))
        },
        shared_verify: |r| {
            let w = shared();
            let (g, i, j) = &w.sigers[r.below(w.sigers.len())];
            let s = &w.signers[*i];
            let m = SERS[*j];
            pure(&s.verfer(), |v| Ok((v.verify(&g.raw(), m.as_bytes())?, v.verify(&g.raw(), b"other")?)))
        },
        shared_stretch: |r| {
            let w = shared();
            let p = *r.pick(&PATHS);
            show(w.salter.stretch(Some(32), Some(p), None, Some(true)))
        },
        versions: |r| show(deversify(*r.pick(&VERSIONS))),
        versify: |r| {
            let v = Version { major: 1, minor: r.below(3) as u8 };
            show(versify(Some(*r.pick(&["KERI", "ACDC"])), Some(&v), None, Some(*r.pick(&[0, 17, 255, 0xffffff]))))
        },
        sizeify: |r| {
            let d = doc(r);
            pure(&d, |d| {
                let s = sizeify(d, None)?;
                Ok((s.raw, s.ked.to_json()?))
            })
        },
        sniff: |r| {
            let t = format!("{{\"v\":\"{}\",\"d\":\"\"}}", r.pick(&VERSIONS));
            show(sniff(t.as_bytes()))
        },
        diger_long: |r| {
            let m = long(r);
            let c = *r.pick(&DCODES);
            let d = Diger::new_with_ser(&m, Some(c)).unwrap();
            let k = r.below(m.len());
            let mut other = m.clone();
            other[k] ^= 1;
            pure(&d, |d| Ok((d.qb64()?, d.verify(&m)?, d.verify(&other)?, d.verify(&m[..k])?)))
        },
        sign_long: |r| {
            let (s, suite) = signer(r);
            let m = long(r);
            let g = s.sign_unindexed(&m).unwrap();
            let x = s.sign_indexed(&m, true, 3, None).unwrap();
            let k = r.below(m.len());
            let mut other = m.clone();
            other[k] ^= 1;
            let det = if suite == "A" { show(g.qb64()) } else { g.code() };
            let v = s.verfer();
            format!("{det} {} {} {} {}", show(v.verify(&g.raw(), &m)), show(v.verify(&x.raw(), &m)), show(v.verify(&g.raw(), &other)), show(v.verify(&x.raw(), &m[..k])))
        },
        saidify_long: |r| {
            let mut o = cesride::data::Object::new();
            o.insert("d".into(), Value::from(""));
            for i in 0..[6, 20, 60][r.below(3)] {
                o.insert(format!("k{i}"), if i % 5 == 0 { doc(r) } else { Value::from(&*String::from_utf8(long(r)).unwrap()) });
            }
            let d = Value::Object(o);
            let c = *r.pick(&DCODES);
            pure(&d, |d| {
                let (s, v) = Saider::saidify(d, Some(c), None, None, None)?;
                let ok = s.verify(&v, None, None, None, None, None)?;
                let no = s.verify(d, Some(true), None, None, None, None)?;
                Ok((s.qb64()?, ok, no, v.to_json()?.len()))
            })
        },
        values: |r| {
            let d = doc(r);
            pure(&d, |d| Ok((d.to_json()?, d.to_map()?.len(), d["n"].to_i64()?, d["a"].to_string().is_ok())))
        },
    ]
}

/// variants of each kind of operation
pub const VARIANTS: u64 = 12;

pub fn count() -> u64 {
    table().len() as u64 * VARIANTS
}

pub fn name(i: u64) -> &'static str {
    table()[(i / VARIANTS) as usize].0
}

pub fn run(t: &[(&'static str, Op)], seed: u64, i: u64) -> String {
    let mut r = R(seed ^ (i % VARIANTS).wrapping_mul(0x1234_5678_9abc_def1) ^ (i / VARIANTS) << 40);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t[(i / VARIANTS) as usize].1)(&mut r))) {
        Ok(s) => s.replace('\n', "\\n"),
        Err(_) => "PANIC".into(),
    }
}
