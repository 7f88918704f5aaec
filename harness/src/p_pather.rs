//! C24: paths.
use crate::cesr::bext_qb64;
use crate::fw::*;
use crate::jsn::{self, build, dump, V};
use crate::types::es;
use cesride::{Bext, Matter, Pather, Serder};
use serde_json::{json, Map, Value as J};

fn label(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.pick(&["0", "1", "2", "3", "10", "00", "007", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "A", "AA", "AAAA", "_", "__", "1a", "a1", "0x1", "1_"]).to_string(),
        1 => {
            let n = r.range(1, 30);
            (0..n).map(|_| *r.pick(b"ABCXYZabcxyz0189_") as char).collect()
        }
        2 if r.chance(1, 4) => (r.u64() >> r.below(64)).to_string(),
        2 => r.range(0, 12).to_string(),
        _ => r.pick(&["a", "b", "c", "d", "i", "x", "y", "ab", "abc", "v", "rd", "name", "A", "ba"]).to_string(),
    }
}

fn components(r: &mut Rng) -> Vec<String> {
    let n = match r.below(10) {
        0 => 0,
        1 => r.range(6, 60),
        _ => r.range(1, 5),
    };
    let mut v: Vec<String> = (0..n).map(|_| label(r)).collect();
    if n > 1 && r.chance(1, 3) {
        // repeated components
        let k = v[0].clone();
        for x in v.iter_mut() {
            if r.chance(1, 2) {
                *x = k.clone();
            }
        }
    }
    v
}

fn text(p: &[String]) -> String {
    format!("-{}", p.join("-"))
}

fn list(p: &[String]) -> V {
    build(&json!(p))
}

fn check_path(c: &mut Case, what: &str, p: Result<Pather, String>, want: &[String]) -> Option<Pather> {
    let t = text(want);
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            c.fail(&format!("refused:{what}"), format!("{t} {e}"));
            return None;
        }
    };
    c.check(es(p.bext()) == Ok(t.clone()), &format!("text:{what}"), || format!("{:?} want {t}", p.bext()));
    c.check(es(p.path()) == Ok(list(want)), &format!("components:{what}"), || format!("{:?} want {want:?}", p.path()));
    c.check(es(p.qb64()) == Ok(bext_qb64(&t)), &format!("qb64:{what}"), || format!("{:?} want {}", p.qb64(), bext_qb64(&t)));
    Some(p)
}

/// a document with short field names from the same pool, so that paths meet it
fn document(r: &mut Rng, depth: usize) -> J {
    match if depth == 0 { r.below(3) } else { r.range(1, 8) } {
        0 => jsn::value(r, 0),
        1 => json!(r.below(100)),
        2 => json!(jsn::string(r)),
        3 | 4 => {
            let n = r.below(5);
            J::Array((0..n).map(|_| document(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(6);
            let mut m = Map::new();
            for _ in 0..n {
                m.insert(if r.chance(1, 12) { jsn::key(r) } else { label(r) }, document(r, depth - 1));
            }
            J::Object(m)
        }
    }
}

/// reference resolution
fn follow<'a>(j: &'a J, p: &[String]) -> Option<&'a J> {
    let mut cur = j;
    for s in p {
        let n = if s.bytes().all(|b| b.is_ascii_digit()) { s.parse::<usize>().ok() } else { None };
        cur = match cur {
            J::Object(o) => match n {
                Some(n) => o.values().nth(n)?,
                None => o.get(s)?,
            },
            J::Array(a) => a.get(n?)?,
            _ => return None,
        };
    }
    Some(cur)
}

fn safe(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}

/// a path that exists in the document (by names or positions), as deep as it goes or less
fn walk(r: &mut Rng, j: &J) -> Vec<String> {
    let mut p = vec![];
    let mut cur = j;
    loop {
        if r.chance(1, 6) {
            return p;
        }
        match cur {
            J::Object(o) if !o.is_empty() => {
                let i = r.below(o.len());
                let (k, v) = o.iter().nth(i).unwrap();
                if r.chance(1, 4) || !safe(k) {
                    p.push(i.to_string());
                } else {
                    p.push(k.clone());
                }
                cur = v;
                // a numeric name means a position
                if k.bytes().all(|b| b.is_ascii_digit()) {
                    return p;
                }
            }
            J::Array(a) if !a.is_empty() => {
                let i = r.below(a.len());
                p.push(if r.chance(1, 10) { format!("{i:03}") } else { i.to_string() });
                cur = &a[i];
            }
            _ => return p,
        }
    }
}

pub fn c24_forms(c: &mut Case) {
    let want = components(&mut c.rng);
    let t = text(&want);
    let ctx = || t.clone();
    let Some(made) = c.total("pather", ctx, || {
        let q = bext_qb64(&t);
        // numbers may be given as integers
        let mixed: Vec<J> = want.iter().map(|s| match s.parse::<i64>() {
            Ok(i) if i.to_string() == *s => json!(i),
            _ => json!(s),
        }).collect();
        let mut v = vec![
            ("path", es(Pather::new_with_path(&list(&want)))),
            ("mixed", es(Pather::new_with_path(&build(&json!(mixed))))),
            ("bext", es(Pather::new_with_bext(&t))),
            ("qb64", es(Pather::new_with_qb64(&q))),
            ("qb64b", es(Pather::new_with_qb64b(q.as_bytes()))),
            ("qb2", es(Pather::new_with_qb2(&crate::cesr::dec(q.as_bytes()).unwrap()))),
        ];
        if let Ok(p) = Pather::new_with_qb64(&q) {
            v.push(("raw", es(Pather::new_with_raw(&p.raw(), Some(&p.code())))));
            v.push(("again", es(p.path()).and_then(|x| es(Pather::new_with_path(&x)))));
            v.push(("text again", es(p.bext()).and_then(|x| es(Pather::new_with_bext(&x)))));
        }
        v
    }) else { return };
    for (what, p) in made {
        check_path(c, what, p, &want);
        c.ev("paths made");
    }
    // components outside the alphabet are refused
    let bad = *c.rng.pick(&['.', ' ', '/', '+', '=', '$', 'é', '\n', '\0', '@', '"', '~', '😀']);
    let mut w = want.clone();
    let mut s: Vec<char> = label(&mut c.rng).chars().collect();
    let at = c.rng.below(s.len() + 1);
    s.insert(at, bad);
    let at = c.rng.below(w.len() + 1);
    w.insert(at, s.into_iter().collect());
    let r = c.total("pather", || format!("{w:?}"), || es(Pather::new_with_path(&list(&w))));
    c.check(matches!(r, Some(Err(_))), "foreign-component-accepted", || format!("{w:?} {r:?}"));
    let wt = text(&w);
    let r = c.total("pather", || wt.clone(), || es(Pather::new_with_bext(&wt)));
    c.check(matches!(r, Some(Err(_))), "foreign-text-accepted", || format!("{wt:?} {r:?}"));
    c.evn("components refused", 2);
    // not component lists
    let not = [json!("a"), json!({"a": 1}), J::Null, json!([null]), json!([["a"]]), json!([true]), json!([1.5]), json!([{"a": "b"}]), json!(5)];
    let x = c.rng.pick(&not).clone();
    let r = c.total("pather", || x.to_string(), || es(Pather::new_with_path(&build(&x))));
    c.check(matches!(r, Some(Err(_))), "non-list-accepted", || format!("{x} {r:?}"));
    // text that is no path has no components
    if !want.is_empty() && !(t[1..].len() % 4 == 0 && t[1..].starts_with('A')) {
        let t2 = t[1..].to_string();
        if let Some(Ok(p)) = c.total("pather", || t2.clone(), || es(Pather::new_with_bext(&t2))) {
            let r = c.total("path", || t2.clone(), || es(p.path()));
            c.check(matches!(r, Some(Err(_))), "no-leading-separator", || format!("{t2} {r:?}"));
            c.ev("not a path");
        }
    }
    c.sample(ctx);
    c.seen(&t);
}

pub fn c24_resolve(c: &mut Case) {
    let j = document(&mut c.rng, 4);
    let v = build(&j);
    let doc = clip(&dump(&j));
    for k in 0..6 {
        let mut p = walk(&mut c.rng, &j);
        if k > 2 {
            match c.rng.below(5) {
                0 => p.push(label(&mut c.rng)),
                1 if !p.is_empty() => {
                    let i = c.rng.below(p.len());
                    p[i] = label(&mut c.rng);
                }
                2 if !p.is_empty() => {
                    let i = c.rng.below(p.len());
                    if let Ok(n) = p[i].parse::<usize>() {
                        p[i] = n.wrapping_add(c.rng.range(1, 5)).to_string();
                    } else {
                        p[i].push('x');
                    }
                }
                _ => p = components(&mut c.rng),
            }
        }
        let t = text(&p);
        let x = Pather::new_with_path(&list(&p)).must("path");
        let want = follow(&j, &p);
        let got = c.total("resolve", || format!("{t} in {doc}"), || es(x.resolve(&v)));
        match (got, want) {
            (Some(Ok(g)), Some(w)) => {
                c.check(g == build(w), "resolved", || format!("{t} got {} want {} in {doc}", clip(&g.to_json().unwrap_or_default()), clip(&dump(w))));
                c.ev("steps resolved");
                c.ev(&format!("depth {}", p.len().min(5)));
            }
            (Some(Err(_)), None) => c.ev("missing steps refused"),
            (Some(Ok(g)), None) => c.fail("resolved-nothing", format!("{t} got {} in {doc}", clip(&g.to_json().unwrap_or_default()))),
            (Some(Err(e)), Some(w)) => c.fail("unresolved", format!("{t} {e} want {} in {doc}", clip(&dump(w)))),
            (None, _) => {}
        }
        c.seen(&(&t, &doc));
    }
    c.check(es(v.to_json()) == Ok(dump(&j)), "document-changed", || doc.clone());
    c.sample(|| doc.clone());
}

/// long lists and wide maps
pub fn c24_wide(c: &mut Case) {
    let n = *c.rng.pick(&[10usize, 99, 100, 101, 255, 256, 257, 1000, 4097, 65_535, 65_536, 65_537, 70_000]);
    let list_of: Vec<J> = (0..n).map(|i| json!(i)).collect();
    let map_of: serde_json::Map<String, J> = (0..n.min(5000)).map(|i| (format!("k{i}"), json!(i))).collect();
    let j = if c.rng.bool() { json!({"d": "", "a": {"l": list_of}, "m": map_of}) } else { json!([0, {"l": list_of}, {"m": map_of}]) };
    let v = build(&j);
    let (to_list, to_map): (Vec<&str>, Vec<&str>) = if j.is_object() { (vec!["a", "l"], vec!["m"]) } else { (vec!["1", "l"], vec!["2", "m"]) };
    let mut at = vec![0, 1, 9, 10, n - 1, n, n + 1, 255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX];
    for _ in 0..8 {
        at.push(c.rng.below(n));
    }
    for i in at {
        let mut p: Vec<String> = to_list.iter().map(|x| x.to_string()).collect();
        p.push(i.to_string());
        let x = Pather::new_with_path(&list(&p)).must("path");
        let got = c.total("resolve", || format!("{i} of {n}"), || es(x.resolve(&v)));
        let Some(got) = got else { continue };
        c.check(if i < n { got == Ok(build(&json!(i))) } else { got.is_err() }, "wide", || format!("{} of {n} entries: {got:?}", text(&p)));
        c.ev("entries of long lists");
        let m = n.min(5000);
        let mut p: Vec<String> = to_map.iter().map(|x| x.to_string()).collect();
        // by name, or by position
        p.push(if c.rng.bool() { format!("k{i}") } else { i.to_string() });
        let x = Pather::new_with_path(&list(&p)).must("path");
        let got = c.total("resolve", || format!("{i} of {n}"), || es(x.resolve(&v)));
        let Some(got) = got else { continue };
        c.check(if i < m { got == Ok(build(&json!(i))) } else { got.is_err() }, "wide", || format!("{} of {m} fields: {got:?}", text(&p)));
    }
    c.seen(&(n, j.is_object()));
}

pub fn c24_pairs(c: &mut Case) {
    let a = components(&mut c.rng);
    // related paths more often than not
    let b = match c.rng.below(7) {
        0 => components(&mut c.rng),
        1 => a.clone(),
        2 => vec![],
        3 if !a.is_empty() => {
            let n = c.rng.below(a.len());
            a[c.rng.below(a.len()).min(n)..].to_vec()
        }
        4 if !a.is_empty() => {
            // a shared text prefix that is not a component prefix
            let n = c.rng.below(a.len()) + 1;
            let mut b = a[..n].to_vec();
            let l = b[n - 1].len();
            b[n - 1].truncate(c.rng.range(1, l));
            b
        }
        5 => {
            let mut b = a.clone();
            b.push(label(&mut c.rng));
            b
        }
        _ => a[..c.rng.below(a.len() + 1)].to_vec(),
    };
    let (ta, tb) = (text(&a), text(&b));
    let pa = Pather::new_with_path(&list(&a)).must("path");
    let pb = Pather::new_with_path(&list(&b)).must("path");
    let ctx = || format!("{ta} and {tb}");
    let s = c.total("starts_with", ctx, || es(pa.starts_with(&pb)));
    c.check(s == Some(Ok(ta.starts_with(&tb))), "starts-with", || format!("{s:?} {}", ctx()));
    c.ev(if ta.starts_with(&tb) { "under" } else { "not under" });
    // stripping
    let under = a.len() >= b.len() && a[..b.len()] == b[..];
    let want = if under { a[b.len()..].to_vec() } else { a.clone() };
    if let Some(p) = c.total("strip", ctx, || es(pa.strip(&pb))) {
        check_path(c, "strip", p, &want);
    }
    c.ev(if under { "stripped" } else { "left alone" });
    // rooting, and back
    let mut joined = b.clone();
    joined.extend(a.clone());
    if let Some(p) = c.total("root", ctx, || es(pa.root(&pb))) {
        if let Some(p) = check_path(c, "root", p, &joined) {
            if let Some(q) = c.total("strip", ctx, || es(p.strip(&pb))) {
                check_path(c, "unroot", q, &a);
            }
            c.check(es(p.starts_with(&pb)) == Ok(true) || b.is_empty() , "rooted-not-under", ctx);
            c.ev("rooted");
        }
    }
    check_path(c, "unchanged", Ok(pa.clone()), &a);
    check_path(c, "unchanged", Ok(pb.clone()), &b);
    c.sample(ctx);
    c.seen(&(&ta, &tb));
}

pub fn c24_tail(c: &mut Case) {
    let mut j = match document(&mut c.rng, 3) {
        J::Object(m) => m,
        x => {
            let mut m = Map::new();
            m.insert("x".into(), x);
            m
        }
    };
    let said = |c: &mut Case| {
        let code = *c.rng.pick(&crate::p_digest::DIGEST_CODES);
        let raw = c.rng.bytes(crate::cesr::mcode(code).unwrap().raw.unwrap());
        json!(crate::cesr::matter_qb64(code, &raw))
    };
    let d = said(c);
    j.shift_remove("d");
    j.shift_remove("v");
    let at = c.rng.below(j.len() + 1);
    j = jsn::insert_at(&j, at, "d", d.clone());
    let x = said(c);
    j.insert("s0".into(), x);
    j.insert("s1".into(), json!({"d": d, "k": [1, "no digest", true, null]}));
    let frayed = format!("{}{}", d.as_str().unwrap(), c.rng.pick(&["A", "AAAA", "-", "=", " ", "x y"]));
    j.insert("s2".into(), json!(frayed));
    let code = crate::cesr::matter_decode(d.as_str().unwrap().as_bytes()).unwrap().code.to_string();
    j = jsn::insert_at(&j, 0, "v", json!("KERI10JSON000000_"));
    let sized = J::Object(jsn::sized(&j).unwrap());
    let s = Serder::new_with_ked(&build(&J::Object(j)), Some(&code), None).must("event");
    let doc = clip(&dump(&sized));
    // whether more after a digest is borne is not claimed, but what is handed out is what is there
    let x = Pather::new_with_path(&list(&["s2".to_string()])).must("path");
    let got = c.total("tail", || doc.clone(), || es(x.tail(&s)));
    c.check(matches!(&got, Some(Err(_))) || got == Some(Ok(frayed.clone())), "tail-altered", || format!("{got:?} want {frayed} or a refusal in {doc}"));
    for k in 0..6 {
        let p = match k {
            0 => vec!["s0".to_string()],
            1 => vec!["s1".to_string(), c.rng.pick(&["d", "k", "0", "1", "z"]).to_string()],
            2 => vec!["s1".to_string(), "k".to_string(), c.rng.below(5).to_string()],
            _ => walk(&mut c.rng, &sized),
        };
        let t = text(&p);
        let x = Pather::new_with_path(&list(&p)).must("path");
        let want: Option<String> = match follow(&sized, &p) {
            Some(J::String(s)) => {
                let ok = crate::cesr::matter_decode(s.as_bytes()).map(|d| crate::p_digest::DIGEST_CODES.contains(&d.code.as_ref())).unwrap_or(false);
                if ok { Some(s.clone()) } else { None }
            }
            Some(x @ (J::Array(_) | J::Object(_))) => Some(dump(x)),
            _ => None,
        };
        let got = c.total("tail", || format!("{t} in {doc}"), || es(x.tail(&s)));
        let ok = match (&got, &want) {
            (Some(Ok(g)), Some(w)) => g == w,
            (Some(Err(_)), None) => true,
            _ => false,
        };
        c.check(ok, "tail", || format!("{t} got {got:?} want {want:?} in {doc}"));
        c.ev(if want.is_some() { "tails found" } else { "tails refused" });
        c.seen(&(&t, &doc));
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C24",
        rule: "an execution is one path through every form, one path resolved on a random document against a reference walk, or one pair of paths compared, stripped and rooted; distinct by path or pair or (path, document)",
        sections: vec![sec("forms", 40_000, 200_000, c24_forms), sec("resolve", 60_000, 300_000, c24_resolve), sec("wide", 100, 1_000, c24_wide), sec("pairs", 12_000, 500_000, c24_pairs), sec("tail", 15_000, 60_000, c24_tail)],
        require: vec![("paths made", 30_000), ("components refused", 7_000), ("steps resolved", 12_000), ("missing steps refused", 5_000), ("depth 4", 300), ("under", 3_000), ("not under", 3_000), ("stripped", 3_000), ("left alone", 3_000), ("rooted", 11_000), ("tails found", 2_000), ("tails refused", 1_500)],
        assumptions: vec!["the Base64 text reference of C25"],
        termination: false,
    }]
}
