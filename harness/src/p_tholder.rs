//! C16, C17: thresholds.
use crate::cesr::{bext_qb64, matter_qb64};
use crate::fw::*;
use crate::jsn::{build, V};
use crate::types::es;
use cesride::{Bext, Matter, Tholder};
use num_bigint::BigUint;
use serde_json::{json, Value as J};

pub type Frac = (u32, u32);

fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn canon(f: Frac) -> String {
    let g = gcd(f.0, f.1);
    let (n, d) = (f.0 / g, f.1 / g);
    if d == 1 { n.to_string() } else { format!("{n}/{d}") }
}
/// is the exact sum at least one? (cross-multiplied, no rational type involved)
pub fn reaches_one(fs: &[Frac]) -> bool {
    let mut num = BigUint::from(0u32);
    let mut den = BigUint::from(1u32);
    for (n, d) in fs {
        num = num * d + &den * n;
        den *= *d;
    }
    num >= den
}

fn frac(r: &mut Rng) -> Frac {
    let d = match r.below(10) {
        0 => 1,
        1 => *r.pick(&[2147483647u32, 2147483629, 2147483587, 2147483579, 2147483563, 65537, 65521, 46349, 46351]),
        2 => r.range(1, i32::MAX as usize) as u32,
        3 => r.range(1, 70_000) as u32,
        _ => r.range(1, 12) as u32,
    };
    let n = match r.below(8) {
        0 => 0,
        1 => d,
        2 => d - d / 3,
        _ => r.range(0, d as usize) as u32,
    };
    (n, d)
}

/// clauses that are each satisfiable
/// a/p + b/q = 1 - k/(p*q) for large primes p, q: short of one (or past it) by less than any float can tell
fn hair(r: &mut Rng, over: bool) -> Vec<Frac> {
    const P: [u32; 6] = [2147483647, 2147483629, 2147483587, 1_000_003, 65_537, 46_349];
    let p = *r.pick(&P) as i128;
    let mut q = *r.pick(&P) as i128;
    while q == p {
        q = *r.pick(&P) as i128;
    }
    let inv = |x: i128, m: i128| {
        // x^(m-2) mod m
        let (mut b, mut e, mut o) = (x % m, m - 2, 1i128);
        while e > 0 {
            if e & 1 == 1 {
                o = o * b % m;
            }
            b = b * b % m;
            e >>= 1;
        }
        o
    };
    let k = r.range(1, 3) as i128 * if over { -1 } else { 1 };
    // a*q = -k mod p
    let a = ((-k).rem_euclid(p) * inv(q, p)).rem_euclid(p);
    let b = (p * q - k - a * q) / p;
    debug_assert_eq!(a * q + b * p, p * q - k);
    if b < 0 || b > q {
        return vec![(1, 2), (1, 2)];
    }
    vec![(a as u32, p as u32), (b as u32, q as u32)]
}

pub fn clauses(r: &mut Rng) -> Vec<Vec<Frac>> {
    let nc = if r.chance(1, 2) {
        1
    } else if r.chance(1, 12) {
        r.range(5, 40)
    } else {
        r.range(2, 4)
    };
    let mut out = vec![];
    for _ in 0..nc {
        let mut c: Vec<Frac> = vec![];
        match r.below(7) {
            6 => {
                let over = r.bool();
                c = hair(r, over);
                if !over {
                    c.push((1, 2147483647));
                }
            }
            0 => {
                // exact splits of one: 1/k, k times, plus spare
                let k = r.range(1, 9) as u32;
                for _ in 0..k + r.below(3) as u32 {
                    c.push((1, k));
                }
            }
            1 => {
                // just reaches one: 1/a + 1/b + the rest
                let (a, b) = (r.range(2, 40) as u32, r.range(2, 40) as u32);
                c = vec![(1, a), (1, b), (a * b - a - b, a * b)];
                if a * b < a + b || r.bool() {
                    c = vec![(1, a), (a - 1, a)];
                }
            }
            2 => {
                // neighbouring large denominators, sums a hair around one
                let d = *r.pick(&[2147483647u32, 2147483629, 46349, 65537, 1_000_003]);
                c = vec![(1, 2), (d / 2, d), (1, d), (d / 2 + 1, d)];
            }
            _ => {
                let n = r.range(1, 7);
                c = (0..n).map(|_| frac(r)).collect();
            }
        }
        let mut guard = 0;
        while !reaches_one(&c) {
            c.push(if guard > 6 { (1, 1) } else { frac(r) });
            guard += 1;
        }
        if r.chance(1, 40) {
            let most = if r.chance(1, 4) { 600 } else { 120 };
            for _ in 0..r.range(20, most) {
                let f = (r.below(3) as u32, *r.pick(&[7u32, 11, 13, 17, 19, 23, 29]));
                c.push(f);
            }
        }
        r.shuffle(&mut c);
        out.push(c);
    }
    out
}

fn weight_text(r: &mut Rng, f: Frac) -> String {
    let g = gcd(f.0, f.1);
    let (n, d) = (f.0 / g, f.1 / g);
    match r.below(4) {
        0 if d == 1 => n.to_string(),
        1 => canon(f),
        2 if f.1 < 1_000_000 => format!("{}/{}", f.0 * 3, f.1 * 3),
        _ => format!("{}/{}", f.0, f.1),
    }
}

pub fn nested(r: &mut Rng, cl: &[Vec<Frac>]) -> J {
    J::Array(cl.iter().map(|c| J::Array(c.iter().map(|f| json!(weight_text(r, *f))).collect())).collect())
}

pub fn canonical(cl: &[Vec<Frac>]) -> J {
    J::Array(cl.iter().map(|c| J::Array(c.iter().map(|f| json!(canon(*f))).collect())).collect())
}

pub fn bext_of(cl: &[Vec<Frac>]) -> String {
    cl.iter().map(|c| c.iter().map(|f| canon(*f).replace('/', "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a")
}

fn satisfied(cl: &[Vec<Frac>], idx: &[u32]) -> bool {
    let mut at = 0u32;
    for c in cl {
        let sel: Vec<Frac> = c.iter().enumerate().filter(|(i, _)| idx.contains(&(at + *i as u32))).map(|(_, f)| *f).collect();
        at += c.len() as u32;
        if !reaches_one(&sel) {
            return false;
        }
    }
    true
}

/// the same JSON text, laid out differently
fn laid_out(r: &mut Rng, v: &J) -> String {
    if r.bool() {
        return v.to_string();
    }
    let pretty = r.chance(1, 4);
    let text = if pretty { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() };
    let mut out = String::new();
    let mut quoted = false;
    for ch in text.chars() {
        if ch == '"' {
            quoted = !quoted;
        }
        let gap = !quoted && matches!(ch, ',' | ']');
        if gap && r.chance(1, 3) {
            out.push(*r.pick(&[' ', '\n', '\t']));
        }
        out.push(ch);
        if !quoted && matches!(ch, ',' | '[') && r.chance(1, 3) {
            out.push_str(r.pick(&[" ", "  ", "\n", "\t", "\r\n"]));
        }
    }
    out
}

/// the threshold by a randomly chosen form
fn make(r: &mut Rng, cl: &[Vec<Frac>]) -> (String, Result<Tholder, String>) {
    let n = nested(r, cl);
    let flat = if cl.len() == 1 { n[0].clone() } else { n.clone() };
    match r.below(6) {
        0 => (format!("thold {n}"), es(Tholder::new_with_thold(&build(&n)))),
        1 => (format!("sith {n}"), es(Tholder::new_with_sith(&build(&n)))),
        2 => (format!("sith {flat}"), es(Tholder::new_with_sith(&build(&flat)))),
        3 => (format!("json {n}"), es(Tholder::new_with_sith(&V::from(laid_out(r, &n).as_str())))),
        4 => (format!("json {flat}"), es(Tholder::new_with_sith(&V::from(laid_out(r, &flat).as_str())))),
        _ => {
            let l = bext_qb64(&bext_of(cl));
            (format!("limen {l}"), es(Tholder::new_with_limen(l.as_bytes())))
        }
    }
}

pub fn c16_weighted(c: &mut Case) {
    let cl = clauses(&mut c.rng);
    let size: usize = cl.iter().map(|x| x.len()).sum();
    let (how, t) = make(&mut c.rng, &cl);
    let t = match t {
        Ok(t) => t,
        Err(e) => {
            c.fail("refused:threshold", format!("{how}: {e}"));
            return;
        }
    };
    let mut lists: Vec<Vec<u32>> = vec![vec![], (0..size as u32).collect()];
    for _ in 0..8 {
        let p = c.rng.range(1, 9);
        lists.push((0..size as u32).filter(|_| c.rng.chance(p, 10)).collect());
    }
    // minimal sets: drop one from a satisfying set until it no longer satisfies
    let mut cur: Vec<u32> = (0..size as u32).collect();
    c.rng.shuffle(&mut cur);
    while !cur.is_empty() && satisfied(&cl, &cur) && lists.len() < 40 {
        cur.pop();
        lists.push(cur.clone());
    }
    for l in lists {
        let want = satisfied(&cl, &l);
        let r = c.total("satisfy", || format!("{how} {l:?}"), || es(t.satisfy(&l)));
        c.check(matches!(r, Some(Ok(x)) if x == want), if want { "unsatisfied" } else { "satisfied" }, || format!("{how} indices {l:?} got {r:?} want {want}"));
        c.ev(if want { "satisfied" } else { "unsatisfied" });
        // order and duplicates
        let mut m = l.clone();
        for _ in 0..c.rng.below(4) {
            if !l.is_empty() {
                let x = *c.rng.pick(&l);
                m.push(x);
            }
        }
        c.rng.shuffle(&mut m);
        let r2 = c.total("satisfy", || format!("{how} {m:?}"), || es(t.satisfy(&m)));
        c.check(matches!(r2, Some(Ok(x)) if x == want), "order-or-duplicates-matter", || format!("{how} {m:?} got {r2:?} want {want}"));
        // indices outside the list
        for out in [size as u32, size as u32 + c.rng.u32() % 100, u32::MAX, 1 << 31] {
            m.insert(0, out);
        }
        let r3 = c.total("satisfy", || format!("{how} {m:?}"), || es(t.satisfy(&m)));
        c.check(!matches!(r3, Some(Ok(true))) || want, "outside-index-counts", || format!("{how} {m:?}"));
        c.check(matches!(r3, Some(Ok(_))), "outside-index-error", || format!("{how} {m:?} {r3:?}"));
        // monotone
        if want && size > 0 {
            let mut more = l.clone();
            more.push(c.rng.below(size) as u32);
            c.check(es(t.satisfy(&more)) == Ok(true), "not-monotone", || format!("{how} {more:?}"));
        }
        c.evn("index lists", 3);
        c.seen(&(&how, &l));
    }
    c.sample(|| format!("{how} size {size}"));
    c.ev(if cl.len() == 1 { "single clause" } else { "several clauses" });
}

pub fn c16_numeric(c: &mut Case) {
    let n = match c.rng.below(5) {
        0 => *c.rng.pick(&[0u32, 1, 2, 3, 15, 16, 255, 256, 65535, 65536, u32::MAX]),
        1 => c.rng.u32(),
        _ => c.rng.below(12) as u32,
    };
    let t = match c.rng.below(4) {
        0 => Tholder::new_with_sith(&V::from(n as i64)),
        1 => Tholder::new_with_sith(&V::from(format!("{n:x}").as_str())),
        2 => Tholder::new_with_thold(&V::from(n as i64)),
        _ => {
            let l = if n < 65536 { matter_qb64("M", &(n as u16).to_be_bytes()) } else { matter_qb64("0H", &n.to_be_bytes()) };
            Tholder::new_with_limen(l.as_bytes())
        }
    }
    .must("numeric threshold");
    for _ in 0..6 {
        let k = if c.rng.bool() { c.rng.below(14) } else { (n.min(300) as usize + c.rng.below(3)).saturating_sub(1) };
        let mut l: Vec<u32> = (0..k).map(|i| if c.rng.chance(1, 9) { c.rng.u32() } else { i as u32 }).collect();
        if k > 1 && c.rng.chance(1, 3) {
            // every entry counts, repeated ones too
            for _ in 0..c.rng.range(1, 3) {
                let i = c.rng.below(k - 1);
                let j = if c.rng.bool() { i + 1 } else { c.rng.below(k) };
                l[j] = l[i];
            }
        }
        let want = n > 0 && l.len() >= n as usize;
        let r = c.total("satisfy", || format!("{n} {l:?}"), || es(t.satisfy(&l)));
        c.check(matches!(r, Some(Ok(x)) if x == want), "numeric", || format!("threshold {n} indices {l:?} got {r:?} want {want}"));
        c.ev(if want { "numeric satisfied" } else { "numeric unsatisfied" });
        c.seen(&(n, l));
    }
}

/// every subset of small thresholds
pub fn c16_subsets(c: &mut Case) {
    let mut cl = clauses(&mut c.rng);
    cl.truncate(2);
    for k in cl.iter_mut() {
        while k.len() > 5 && reaches_one(&k[1..]) {
            k.remove(0);
        }
    }
    let size: usize = cl.iter().map(|x| x.len()).sum();
    if size > 10 {
        return;
    }
    let (how, t) = make(&mut c.rng, &cl);
    let t = t.must("threshold");
    let mut prev = vec![false; 1 << size];
    for mask in 0u32..1 << size {
        let l: Vec<u32> = (0..size as u32).filter(|i| mask >> i & 1 == 1).collect();
        let want = satisfied(&cl, &l);
        prev[mask as usize] = want;
        let r = es(t.satisfy(&l));
        c.check(r == Ok(want), "subset", || format!("{how} {l:?} got {r:?} want {want}"));
        c.seen(&(&how, mask));
    }
    c.ev("thresholds enumerated over all subsets");
}

// ---------------------------------------------------------------- C17

fn same(c: &mut Case, what: &str, how: &str, a: &Tholder, b: Result<Tholder, String>) {
    match b {
        Ok(b) => {
            c.check(*a == b, &format!("not-equal:{what}"), || format!("{how}: {a:?} {b:?}"));
        }
        Err(e) => c.fail(&format!("refused:{what}"), format!("{how}: {e}")),
    }
    c.ev("forms rebuilt");
}

pub fn c17_weighted(c: &mut Case) {
    let cl = clauses(&mut c.rng);
    let size: usize = cl.iter().map(|x| x.len()).sum();
    let canon = canonical(&cl);
    let flat = if cl.len() == 1 { canon[0].clone() } else { canon.clone() };
    let bext = bext_of(&cl);
    let limen = bext_qb64(&bext);
    let mut all = vec![];
    for _ in 0..4 {
        let (how, t) = make(&mut c.rng, &cl);
        let t = match t {
            Ok(t) => t,
            Err(e) => {
                c.fail("refused:threshold", format!("{how}: {e}"));
                continue;
            }
        };
        c.check(t.weighted(), "weighted", || how.clone());
        c.check(t.size() as usize == size, "size", || format!("{how} {}", t.size()));
        c.check(t.thold() == build(&canon), "thold", || format!("{how} got {:?} want {canon}", t.thold()));
        c.check(es(t.sith()) == Ok(build(&flat)), "sith", || format!("{how} got {:?} want {flat}", t.sith()));
        c.check(es(t.to_json()) == Ok(flat.to_string()), "json", || format!("{how} got {:?} want {flat}", t.to_json()));
        c.check(es(t.limen()) == Ok(limen.clone().into_bytes()), "limen", || format!("{how} got {:?} want {limen}", t.limen().map(String::from_utf8)));
        c.check(matches!(t.num(), Ok(None)) && t.number().is_none(), "num", || how.clone());
        c.check(t.bexter().map(|b| es(b.bext())) == Some(Ok(bext.clone())), "bexter", || how.clone());
        same(c, "thold", &how, &t, es(Tholder::new_with_thold(&t.thold())));
        same(c, "sith", &how, &t, es(Tholder::new_with_sith(&t.sith().must("sith"))));
        same(c, "json", &how, &t, es(Tholder::new_with_sith(&V::from(t.to_json().must("json").as_str()))));
        same(c, "limen", &how, &t, es(Tholder::new_with_limen(&t.limen().must("limen"))));
        c.seen(&how);
        all.push((how, t));
    }
    for w in all.windows(2) {
        c.check(w[0].1 == w[1].1, "forms-differ", || format!("{} / {}", w[0].0, w[1].0));
        let l: Vec<u32> = (0..size as u32).filter(|_| c.rng.bool()).collect();
        c.check(es(w[0].1.satisfy(&l)) == es(w[1].1.satisfy(&l)), "satisfaction-differs", || format!("{} / {} {l:?}", w[0].0, w[1].0));
    }
    c.ev("weighted");
    c.sample(|| format!("{flat} {limen}"));
}

pub fn c17_numeric(c: &mut Case) {
    let n = match c.rng.below(5) {
        0 => *c.rng.pick(&[0u32, 1, 2, 15, 16, 255, 256, 65535, 65536, u32::MAX, u32::MAX - 1]),
        1 | 2 => c.rng.u32() >> c.rng.below(32),
        _ => c.rng.below(40) as u32,
    };
    let limen = if n < 65536 { matter_qb64("M", &(n as u16).to_be_bytes()) } else { matter_qb64("0H", &n.to_be_bytes()) };
    // the same number under every number code
    let mut forms: Vec<(String, Result<Tholder, String>)> = vec![
        ("hex".into(), es(Tholder::new_with_sith(&V::from(format!("{n:x}").as_str())))),
        ("HEX".into(), es(Tholder::new_with_sith(&V::from(format!("{n:X}").as_str())))),
        ("padded hex".into(), es(Tholder::new_with_sith(&V::from(format!("{n:012x}").as_str())))),
        ("int".into(), es(Tholder::new_with_sith(&V::from(n as i64)))),
        ("thold".into(), es(Tholder::new_with_thold(&V::from(n as i64)))),
        ("limen".into(), es(Tholder::new_with_limen(limen.as_bytes()))),
    ];
    forms.push(("limen N".into(), es(Tholder::new_with_limen(matter_qb64("N", &(n as u64).to_be_bytes()).as_bytes()))));
    forms.push(("limen 0A".into(), es(Tholder::new_with_limen(matter_qb64("0A", &(n as u128).to_be_bytes()).as_bytes()))));
    for (how, t) in forms {
        let t = match t {
            Ok(t) => t,
            Err(e) => {
                c.fail("refused:numeric", format!("{how} {n}: {e}"));
                continue;
            }
        };
        let d = format!("{how} {n}");
        c.check(!t.weighted(), "weighted", || d.clone());
        c.check(t.size() == n, "size", || d.clone());
        c.check(es(t.num()) == Ok(Some(n)), "num", || format!("{d} {:?}", t.num()));
        c.check(es(t.thold().to_i64()) == Ok(n as i64), "thold", || d.clone());
        c.check(es(t.sith()) == Ok(V::from(format!("{n:x}").as_str())), "sith", || d.clone());
        c.check(es(t.to_json()) == Ok(format!("\"{n:x}\"")), "json", || d.clone());
        c.check(es(t.limen()) == Ok(limen.clone().into_bytes()), "limen", || format!("{d} {:?}", t.limen()));
        c.check(t.number().map(|x| es(x.num())) == Some(Ok(n as u128)), "number", || d.clone());
        c.check(t.number().map(|x| x.code()) == Some(if n < 65536 { "M".into() } else { "0H".into() }), "number-code", || d.clone());
        c.check(t.bexter().is_none(), "bexter", || d.clone());
        same(c, "thold", &d, &t, es(Tholder::new_with_thold(&t.thold())));
        same(c, "sith", &d, &t, es(Tholder::new_with_sith(&t.sith().must("sith"))));
        same(c, "limen", &d, &t, es(Tholder::new_with_limen(&t.limen().must("limen"))));
        c.seen(&d);
    }
    c.ev("numeric");
}

fn bad_weight(r: &mut Rng) -> String {
    let d = if r.chance(1, 3) { r.range(1, 2_147_483_000) } else { r.range(1, 1000) };
    match r.below(22) {
        19 => format!(" {}/{d}", r.below(d)),
        20 => format!("{}/{d}{}", r.below(d), r.pick(&[" ", "\n", "\t", "\u{a0}"])),
        21 => r.pick(&[" 1", "1 ", "0 ", "1 /2", "1/ 2", " ", "１/2", "1/２", "0x1", "1/0x2", "1_0/20", "1e0", "1/2e0"]).to_string(),
        16 => format!("+{}/{d}", r.below(d)),
        17 => format!("{}/+{d}", r.below(d)),
        18 => r.pick(&["-0/1", "+1", "+0", "-0", "0/-1", "-0"]).to_string(),
        0 => format!("{}/{d}", d + 1 + r.below(5)),
        1 => format!("-{}/{d}", r.range(1, d)),
        2 => format!("{}/-{d}", r.range(1, d)),
        3 => format!("{}/0", r.below(3)),
        4 => format!("{}", r.range(2, 40)),
        5 => "-1".into(),
        6 => "1/2/3".into(),
        7 => format!("1/{d}/1"),
        8 => "".into(),
        9 => "/".into(),
        10 => format!("/{d}"),
        11 => format!("{d}/"),
        12 => "0.5".into(),
        13 => format!("{d} / {d}"),
        14 => r.pick(&["a", "one", "½", "1e0", "0x1", "1s2", "nan", "1/a", "b/2", "٣/٤"]).to_string(),
        _ => "0/1/1".into(),
    }
}

pub fn c17_malformed(c: &mut Case) {
    // one malformed weight among good ones, in every form
    let mut cl = nested(&mut c.rng, &[vec![(1, 1), (1, 2), (1, 2)], vec![(1, 1)]]);
    let b = bad_weight(&mut c.rng);
    let at = c.rng.below(2);
    let pos = c.rng.below(cl[at].as_array().unwrap().len() + 1);
    cl[at].as_array_mut().unwrap().insert(pos, json!(b));
    if c.rng.bool() {
        cl = J::Array(vec![cl[at].clone()]);
    }
    let mut bads: Vec<J> = vec![cl.clone(), json!(cl.to_string())];
    if cl.as_array().unwrap().len() == 1 {
        bads.push(cl[0].clone());
        bads.push(json!(cl[0].to_string()));
    }
    // sums below one
    let d = c.rng.range(2, 2_000_000_000) as u32;
    bads.push(json!([format!("{}/{d}", d - 1)]));
    bads.push(json!([["1"], [format!("{}/{d}", d / 2 - d / 2 / 9), format!("{}/{d}", d / 3)]]));
    bads.push(json!([[format!("{}/{d}", d - 1)], ["1"]]));
    bads.push(json!(["1/3", "1/3", "333333333/1000000000"]));
    bads.push(json!(["0", "0/7"]));
    let h = hair(&mut c.rng, false);
    if !reaches_one(&h) {
        bads.push(canonical(&[h.clone()]));
        bads.push(canonical(&[vec![(1, 1)], h]));
    }
    // one thing wrong with one clause of an otherwise good threshold
    let mut good = clauses(&mut c.rng);
    let at = c.rng.below(good.len());
    let mut broken = canonical(&good);
    let mut text = None;
    match c.rng.below(5) {
        0 | 1 => {
            // a sum below one
            while reaches_one(&good[at]) {
                let k = c.rng.below(good[at].len());
                let f = good[at][k];
                good[at][k] = if f.0 > 1 && c.rng.bool() { (f.0 - 1, f.1) } else { (0, 1) };
            }
            broken = nested(&mut c.rng, &good);
            text = Some(bext_of(&good));
            c.ev("clause below one");
        }
        2 => {
            broken[at] = json!([]);
            let parts: Vec<String> = good.iter().enumerate().map(|(i, x)| if i == at { String::new() } else { bext_of(&[x.clone()]) }).collect();
            text = Some(parts.join("a"));
        }
        3 => broken[at] = if good.len() == 1 { json!({}) } else { [json!("1"), json!(1), json!(null), json!({"0": "1"}), json!([["1"]])][c.rng.below(5)].clone() },
        _ => {
            let k = c.rng.below(good[at].len());
            let more = bad_weight(&mut c.rng);
            broken[at][k] = json!(more);
        }
    }
    bads.push(broken.clone());
    bads.push(json!(broken.to_string()));
    if let Some(t) = text {
        let l = bext_qb64(&t);
        let r = c.total("limen", || t.clone(), || es(Tholder::new_with_limen(l.as_bytes())));
        c.check(matches!(r, Some(Err(_))), "malformed-limen-accepted", || format!("{} {r:?}", clip(&t)));
        c.ev("malformed refused");
    }
    // shapes
    for j in [
        json!([]), json!([[]]), json!([["1"], []]), json!([[], ["1"]]), json!("[]"), json!("[[]]"), json!({}), json!(null), json!(true), json!(1.5), json!(-1),
        json!("-1"), json!("+1"), json!("-0"), json!("+0"), json!("+a"), json!(""), json!("g"), json!("0x1"), json!(" 1"), json!("1 "), json!("1.0"), json!([1]), json!([[1]]), json!([0.5, "1/2"]), json!(["1", ["1"]]),
        json!([["1"], "1"]), json!([[["1"]]]), json!([null]), json!({"a": "1"}), json!("[1"), json!("[\"1\"]x"), json!(i64::MAX), json!("7fffffffffffffff"),
        json!("ffffffffffffffffffff"), json!(u32::MAX as i64 + 1), json!("100000000"), json!(i64::MIN),
    ] {
        bads.push(j);
    }
    for j in &bads {
        let v = build(j);
        let r = c.total("sith", || j.to_string(), || es(Tholder::new_with_sith(&v)));
        c.check(matches!(r, Some(Err(_))), "malformed-sith-accepted", || format!("{j} {r:?}"));
        let r = c.total("thold", || j.to_string(), || es(Tholder::new_with_thold(&v)));
        c.check(matches!(r, Some(Err(_))), "malformed-thold-accepted", || format!("{j} {r:?}"));
        c.evn("malformed refused", 2);
        c.seen(&j.to_string());
    }
    // flat weights are an event form, not a structure
    let v = build(&json!(["1/2", "1/2"]));
    c.check(Tholder::new_with_thold(&v).is_err(), "flat-thold-accepted", String::new);
    // limen: malformed weight text, other codes, truncations
    let w = b.replace('/', "s");
    let ok64 = !w.is_empty() && w.bytes().all(|x| x.is_ascii_alphanumeric() || x == b'-' || x == b'_');
    // text that is itself a different well-formed threshold is not malformed
    if ok64 && !w.contains('a') && !w.contains('c') && !(w == "1s2") {
        for t in [format!("1c{w}"), format!("1a1c{w}"), w.clone() + "c1"] {
            if t.len() % 4 == 0 && t.starts_with('A') {
                continue;
            }
            let l = bext_qb64(&t);
            let r = c.total("limen", || t.clone(), || es(Tholder::new_with_limen(l.as_bytes())));
            c.check(matches!(r, Some(Err(_))), "malformed-limen-accepted", || format!("{t} {r:?}"));
            c.ev("malformed refused");
        }
    }
    for t in ["1s2c1s3", "0", "1a0", "s", "c", "a", "1cc1", "1aa1", "1s1s1", "1c", "a1", "1s0", "2", "1S2c1S2", "1-2c1-2"] {
        let l = bext_qb64(t);
        let r = c.total("limen", || t.to_string(), || es(Tholder::new_with_limen(l.as_bytes())));
        c.check(matches!(r, Some(Err(_))), "malformed-limen-accepted", || format!("{t} {r:?}"));
        c.ev("malformed refused");
    }
    let good = bext_qb64("1s2c1s2");
    let k = c.rng.below(good.len());
    let mut limens: Vec<Vec<u8>> = vec![good.as_bytes()[..k].to_vec(), b"MAA".to_vec(), b"M".to_vec(), b"0HAA".to_vec(), vec![], vec![0xff; 4], "é".into(), "4".into(), "4A".into(), "4AA".into()];
    for code in ["A", "B", "E", "0B", "1AAG", "4B", "L", "1AAF"] {
        limens.push(if let Some(n) = crate::cesr::mcode(code).and_then(|m| m.raw) { matter_qb64(code, &c.rng.raw(n)).into_bytes() } else { matter_qb64(code, &c.rng.raw(3)).into_bytes() });
    }
    limens.push(matter_qb64("N", &u64::MAX.to_be_bytes()).into_bytes());
    limens.push(matter_qb64("0A", &u128::MAX.to_be_bytes()).into_bytes());
    limens.push(matter_qb64("N", &(u32::MAX as u64 + 1).to_be_bytes()).into_bytes());
    // numbers beyond 32 bits whose low part is a usual threshold
    for _ in 0..3 {
        let low = c.rng.below(9) as u128;
        let up = [32u32, 33, 40, 63, 64, 65, 96, 127][c.rng.below(8)];
        let n = (c.rng.u128() >> c.rng.below(128) | 1) << up | low;
        limens.push(matter_qb64("0A", &n.to_be_bytes()).into_bytes());
        let n64 = (c.rng.u64() >> c.rng.below(32) | 1) << [32u32, 33, 40, 63][c.rng.below(4)] | low as u64;
        limens.push(matter_qb64("N", &n64.to_be_bytes()).into_bytes());
        for h in [format!("{n:x}"), format!("{n64:x}"), format!("{n:X}")] {
            let v = build(&json!(h));
            let r = c.total("sith", || h.clone(), || es(Tholder::new_with_sith(&v)));
            c.check(matches!(r, Some(Err(_))), "malformed-sith-accepted", || format!("{h} {r:?}"));
        }
        if let Ok(i) = i64::try_from(n64) {
            for v in [build(&json!(i)), build(&json!(-i))] {
                let r = c.total("thold", || v.to_json().unwrap_or_default(), || es(Tholder::new_with_thold(&v)));
                c.check(matches!(r, Some(Err(_))), "malformed-thold-accepted", || format!("{v:?} {r:?}"));
            }
        }
    }
    for l in limens {
        let r = c.total("limen", || format!("{l:?}"), || es(Tholder::new_with_limen(&l)));
        c.check(matches!(r, Some(Err(_))), "malformed-limen-accepted", || format!("{:?} {r:?}", String::from_utf8_lossy(&l)));
        c.ev("malformed refused");
    }
    c.check(Tholder::new(None, None, None).is_err(), "no-threshold-accepted", String::new);
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C16",
            rule: "an execution is one (threshold, index list) judged by exact integer arithmetic, all subsets for small thresholds; distinct by that pair",
            sections: vec![sec("weighted", 9_000, 150_000, c16_weighted), sec("numeric", 9_000, 100_000, c16_numeric), sec("subsets", 4_500, 40_000, c16_subsets)],
            require: vec![("satisfied", 5_000), ("unsatisfied", 5_000), ("numeric satisfied", 1_000), ("several clauses", 1_000), ("thresholds enumerated over all subsets", 300)],
            assumptions: vec!["numeric thresholds count list entries, as the reference implementation does"],
            termination: false,
        },
        Property {
            id: "C17",
            rule: "an execution is one threshold in one of its forms, with every reported form rebuilt, or one malformed expression; distinct by expression",
            sections: vec![sec("weighted", 16_000, 100_000, c17_weighted), sec("numeric", 16_000, 100_000, c17_numeric), sec("malformed", 8_000, 50_000, c17_malformed)],
            require: vec![("forms rebuilt", 30_000), ("weighted", 1_500), ("numeric", 1_500), ("malformed refused", 50_000)],
            assumptions: vec!["weights are compared as reduced fractions, which is the form the library reports"],
            termination: false,
        },
    ]
}
