//! C01-C06, C08: the CESR codec of primitives, indexed signatures and counters.
use crate::cesr::{self, *};
use crate::fw::*;
use crate::types::*;
use cesride::{Counter, Indexer, Matter};

fn hx(b: &[u8]) -> String {
    b.iter().take(400).map(|x| format!("{x:02x}")).collect::<String>() + if b.len() > 400 { "…" } else { "" }
}

/// Compares everything a primitive reports with the reference encoding.
pub fn check_view(c: &mut Case, what: &str, v: &View, code: &str, raw: &[u8]) {
    let text = matter_qb64(code, raw);
    let bin = dec(text.as_bytes()).expect("reference text");
    let size = match mcode(code).unwrap().raw {
        Some(_) => 0,
        None => ((raw.len() + mcode(code).unwrap().lead) / 3) as u32,
    };
    let ctx = |w: &str| format!("{what}:{w}");
    c.eq(&ctx("code"), v.code.as_str(), code);
    c.check(v.raw == raw, &ctx("raw"), || format!("code {code} raw {} got {}", hx(raw), hx(&v.raw)));
    c.eq(&ctx("size"), v.size, size);
    c.check(v.qb64.as_ref() == Ok(&text), &ctx("qb64"), || format!("code {code} want {} got {:?}", clip(&text), v.qb64.as_ref().map(|s| clip(s))));
    c.check(v.qb64b.as_ref().map(|b| b.as_slice()) == Ok(text.as_bytes()), &ctx("qb64b"), || format!("code {code} want {}", clip(&text)));
    c.check(v.qb2.as_ref() == Ok(&bin), &ctx("qb2"), || format!("code {code} want {} got {:?}", hx(&bin), v.qb2.as_ref().map(|b| hx(b))));
    c.eq(&ctx("full_size"), v.full.clone(), Ok(text.len()));
    c.evn("accessor values compared", 7);
}

/// does this type take such raw material? (private keys and the like have value constraints)
fn raw_ok(t: &Ty, code: &str, raw: &[u8]) -> bool {
    t.name != "Signer" || code == "A" || crate::suites::valid_seed(code, raw)
}

fn trip(c: &mut Case, t: &Ty, given: &str, raw: &[u8]) {
    // final code
    let code = match var_code(given, raw.len()) {
        Some(x) => x,
        None => mcode(given).unwrap().code,
    };
    if !raw_ok(t, code, raw) {
        return;
    }
    let surplus = if mcode(code).unwrap().raw.is_some() && c.rng.bool() {
        let k = c.rng.range(1, 70);
        let mut s = raw.to_vec();
        s.extend(c.rng.bytes(k));
        s
    } else {
        raw.to_vec()
    };
    let text = matter_qb64(code, raw);
    let bin = dec(text.as_bytes()).unwrap();
    let built = [
        ("raw", (t.raw)(raw, Some(given))),
        ("surplus", (t.raw)(&surplus, Some(given))),
        ("text", (t.text)(&text)),
        ("bytes", (t.bytes)(text.as_bytes())),
        ("bin", (t.bin)(&bin)),
    ];
    for (route, r) in built {
        match r {
            Ok(v) => check_view(c, &format!("{}:{route}", t.name), &v, code, raw),
            Err(e) => c.fail(&format!("refused:{}:{route}", t.name), format!("code {code} given {given} raw len {} {}: {e}", raw.len(), hx(raw))),
        }
        c.ev("constructions");
    }
    c.seen(&(t.name, code, raw));
}

pub fn c01_fixed(c: &mut Case) {
    let fixed: Vec<&MCode> = MATTER.iter().filter(|m| m.raw.is_some()).collect();
    let m = fixed[(c.index as usize) % fixed.len()];
    let n = m.raw.unwrap();
    let raw = c.rng.raw(n);
    let text = matter_qb64(m.code, &raw);
    c.sample(|| format!("{} raw={} text={text}", m.code, hx(&raw)));
    for t in TYPES {
        if owns(t, m.code) {
            trip(c, t, m.code, &raw);
        }
    }
    // too little raw is refused
    for k in [0, 1, n / 2, n - 1] {
        if k < n {
            for t in TYPES.iter().filter(|t| owns(t, m.code)) {
                c.check((t.raw)(&raw[..k], Some(m.code)).is_err(), "short-raw-accepted", || format!("{} {} with {k} of {n} bytes", t.name, m.code));
                c.ev("short raw refused");
            }
        }
    }
}

fn var_codes() -> Vec<&'static str> {
    MATTER.iter().filter(|m| m.raw.is_none()).map(|m| m.code).collect()
}

pub fn c01_variable(c: &mut Case) {
    let codes = var_codes();
    // enumerated small lengths first, then promotion boundary, then random
    let n = match c.index {
        i if i < 200 => i as usize,
        i if i < 240 => 4095 * 3 - 20 + (i as usize - 200),
        _ => {
            if c.rng.chance(1, 4) {
                4095 * 3 - 8 + c.rng.below(16)
            } else {
                let hi = *c.rng.pick(&[40usize, 400, 4000, 20000]);
                c.rng.below(hi)
            }
        }
    };
    let raw = c.rng.raw(n);
    let given = if n > 2000 { vec![*c.rng.pick(&codes), *c.rng.pick(&codes)] } else { codes };
    for g in given {
        for t in TYPES.iter().filter(|t| owns(t, g)) {
            trip(c, t, g, &raw);
        }
        let f = var_code(g, n).unwrap();
        c.ev(if f.len() > g.len() { "promoted to large class" } else if n > 4095 * 3 { "large class" } else { "class kept" });
        c.ev(match n % 3 {
            0 => "lead 0",
            1 => "lead 2",
            _ => "lead 1",
        });
    }
    c.sample(|| format!("variable length {n}"));
}

/// the very largest sizes (once)
pub fn c01_limits(c: &mut Case) {
    let max = (64usize.pow(4) - 1) * 3;
    let code = *c.rng.pick(&["4A", "7AAA", "4B", "7AAB", "6B", "9AAA"]);
    let raw = vec![0x5au8; max + 1 + c.rng.below(3)];
    let r = <Bare as Matter>::new_with_code_and_raw(code, &raw);
    c.check(r.is_err(), "over-large-accepted", || format!("{code} with {} bytes", raw.len()));
    c.ev("over-large refused");
    let k = max - c.rng.below(3);
    let m = <Bare as Matter>::new_with_code_and_raw(code, &raw[..k]).must("largest size");
    let text = m.qb64().must("largest text");
    let want = matter_qb64(var_code(code, k).unwrap(), &raw[..k]);
    c.check(text == want, "largest-text", || format!("{code} {k} bytes"));
    c.check(m.full_size().ok() == Some(want.len()), "largest-full-size", || format!("{code} {k} bytes: {:?}", m.full_size()));
    let b = m.qb2().must("largest binary");
    c.check(b == dec(want.as_bytes()).unwrap(), "largest-binary", || format!("{code} {k} bytes"));
    let back = <Bare as Matter>::new_with_qb64(&text).must("largest back");
    c.check(back == m, "largest-back", || format!("{code} {k} bytes"));
    let back = <Bare as Matter>::new_with_qb2(&b).must("largest bin back");
    c.check(back == m, "largest-bin-back", || format!("{code} {k} bytes"));
    c.ev("largest round trip");
    c.seen(&(code, k));
    // and where the size field gains a character
    for at in [64usize.pow(2), 64usize.pow(3)] {
        for code in ["4A", "4B", "7AAA", "7AAB"] {
            let k = at * 3 - c.rng.below(7);
            let m = <Bare as Matter>::new_with_code_and_raw(code, &raw[..k]).must("large size");
            let want = matter_qb64(var_code(code, k).unwrap(), &raw[..k]);
            c.check(m.qb64().ok().as_ref() == Some(&want) && m.full_size().ok() == Some(want.len()), "large-text", || format!("{code} {k} bytes"));
            let b = dec(want.as_bytes()).unwrap();
            c.check(m.qb2().ok().as_ref() == Some(&b), "large-binary", || format!("{code} {k} bytes"));
            let back = (<Bare as Matter>::new_with_qb64(&want).must("large back"), <Bare as Matter>::new_with_qb2(&b).must("large bin back"));
            c.check(back.0 == m && back.1 == m, "large-back", || format!("{code} {k} bytes"));
            c.ev("large round trip");
        }
    }
}

// ------------------------------------------------------------------ C02

enum Item {
    M(String, Vec<u8>),
    I(String, Vec<u8>, u32, u32),
    C(String, u32),
}

fn rand_item(r: &mut Rng) -> (Item, String) {
    match r.below(3) {
        0 => {
            let (t, m, raw) = valid_matter(r);
            (Item::M(m.code.to_string(), raw), t)
        }
        1 => {
            let (t, code, raw, i, o) = rand_indexed(r);
            (Item::I(code.to_string(), raw, i, o), t)
        }
        _ => {
            let (code, ss) = *r.pick(COUNTERS);
            let n = rand_count(r, ss);
            (Item::C(code.to_string(), n), counter_qb64(code, n))
        }
    }
}

pub fn rand_count(r: &mut Rng, ss: usize) -> u32 {
    let lim = 64u64.pow(ss as u32);
    (match r.below(6) {
        0 => 0,
        1 => lim - 1,
        2 => r.below(70) as u64 % lim,
        3 => 1 << r.below(6 * ss),
        _ => r.u64() % lim,
    }) as u32
}

pub fn rand_field(r: &mut Rng, digits: usize) -> u32 {
    if digits == 0 {
        return 0;
    }
    rand_count(r, digits)
}

pub fn rand_indexed(r: &mut Rng) -> (String, &'static str, Vec<u8>, u32, u32) {
    let sigs: Vec<&ICode> = INDEXED.iter().filter(|c| c.sig).collect();
    let c = **r.pick(&sigs);
    let index = rand_field(r, c.ms);
    let raw = r.raw(c.raw.unwrap());
    let field = if c.current_only { 0 } else { rand_field(r, c.os) };
    let ondex = if c.os > 0 { field } else if c.current_only { 0 } else { index };
    (indexer_qb64(c.code, &raw, index, field), c.code, raw, index, ondex)
}

pub fn c02_streams(c: &mut Case) {
    let n = c.rng.range(1, if c.index % 5 == 0 { 60 } else { 8 });
    let items: Vec<(Item, String)> = (0..n).map(|_| rand_item(&mut c.rng)).collect();
    let text: String = items.iter().map(|x| x.1.as_str()).collect();
    c.check(text.len() % 4 == 0, "text-alignment", || text.clone());
    let bin = dec(text.as_bytes()).expect("stream");
    // the library must produce exactly these streams itself
    let mut lt = String::new();
    let mut lb: Vec<u8> = vec![];
    for (it, _) in &items {
        match it {
            Item::M(code, raw) => {
                let m = <Bare as Matter>::new_with_code_and_raw(code, raw).must("stream matter");
                lt += &m.qb64().must("qb64");
                lb.extend(m.qb2().must("qb2"));
            }
            Item::I(code, raw, i, o) => {
                let ic = icode(code).unwrap();
                let od = if ic.current_only { None } else { Some(*o) };
                let m = <BareIx as Indexer>::new_with_code_and_raw(code, raw, *i, od).must("stream indexer");
                lt += &m.qb64().must("qb64");
                lb.extend(m.qb2().must("qb2"));
            }
            Item::C(code, n) => {
                let m = Counter::new_with_code_and_count(code, *n).must("stream counter");
                lt += &m.qb64().must("qb64");
                lb.extend(m.qb2().must("qb2"));
            }
        }
    }
    c.check(lt == text, "stream-text", || format!("want {} got {}", clip(&text), clip(&lt)));
    c.check(lb == bin, "stream-binary", || format!("want {} got {}", hx(&bin), hx(&lb)));
    c.check(dec(lt.as_bytes()).as_ref() == Some(&lb), "stream-conversion", || clip(&lt));
    c.ev("streams");
    // parse it back, with arbitrary things following
    let tails = ["", "A", "=", "{\"v\":\"KERI10JSON\"}", "€∑", "----", "\u{0}"];
    let tail = *c.rng.pick(&tails);
    let stext = format!("{text}{tail}");
    let mut sbin = bin.clone();
    let k = c.rng.below(9);
    let extra = c.rng.bytes(k);
    sbin.extend(extra);
    let (mut pt, mut pb) = (0usize, 0usize);
    for (k, (it, enc)) in items.iter().enumerate() {
        let s = &stext[pt..];
        let b = &sbin[pb..];
        let full = match it {
            Item::M(code, raw) => {
                let v1 = view(&<Bare as Matter>::new_with_qb64(s).must("parse text"));
                let v2 = view(&<Bare as Matter>::new_with_qb64b(s.as_bytes()).must("parse bytes"));
                let v3 = view(&<Bare as Matter>::new_with_qb2(b).must("parse binary"));
                for (w, v) in [("text", &v1), ("bytes", &v2), ("binary", &v3)] {
                    c.check(v.code == *code && v.raw == *raw && v.qb64.as_deref() == Ok(enc.as_str()), &format!("stream-item-{w}"), || format!("item {k} of {}", clip(&stext)));
                    c.eq("stream-full-size", v.full.clone(), Ok(enc.len()));
                }
                // typed route
                let owners: Vec<&Ty> = TYPES.iter().filter(|t| owns(t, code) && raw_ok(t, code, raw)).collect();
                let t = *c.rng.pick(&owners);
                let v4 = (t.text)(s).must("typed text in stream");
                let v5 = (t.bin)(b).must("typed binary in stream");
                c.check(v4.raw == *raw && v5.raw == *raw && v4.code == *code && v5.code == *code, "stream-typed", || format!("{} item {k} of {}", t.name, clip(&stext)));
                v1.full.unwrap_or(0)
            }
            Item::I(code, raw, i, o) => {
                let v1 = iview(&<BareIx as Indexer>::new_with_qb64(s).must("parse text"));
                let v2 = iview(&<BareIx as Indexer>::new_with_qb64b(s.as_bytes()).must("parse bytes"));
                let v3 = iview(&<BareIx as Indexer>::new_with_qb2(b).must("parse binary"));
                for (w, v) in [("text", &v1), ("bytes", &v2), ("binary", &v3)] {
                    c.check(v.code == *code && v.raw == *raw && v.index == *i && v.ondex == *o && v.qb64.as_deref() == Ok(enc.as_str()), &format!("stream-indexed-{w}"), || format!("item {k} of {}: {v:?}", clip(&stext)));
                    c.eq("stream-full-size", v.full.clone(), Ok(enc.len()));
                }
                v1.full.unwrap_or(0)
            }
            Item::C(code, n) => {
                let m1 = Counter::new_with_qb64(s).must("parse text");
                let m2 = Counter::new_with_qb64b(s.as_bytes()).must("parse bytes");
                let m3 = Counter::new_with_qb2(b).must("parse binary");
                for m in [&m1, &m2, &m3] {
                    c.check(m.code() == *code && m.count() == *n, "stream-counter", || format!("item {k} of {}", clip(&stext)));
                    c.eq("stream-full-size", es(m.full_size()), Ok(enc.len()));
                }
                m1.full_size().must("full size")
            }
        };
        if full == 0 || pt + full > text.len() {
            c.fail("stream-advance", format!("item {k} full size {full} in {}", clip(&stext)));
            return;
        }
        c.check(full % 4 == 0, "stream-advance-alignment", || format!("{full}"));
        pt += full;
        pb += full / 4 * 3;
        c.ev("items recovered");
    }
    c.check(pt == text.len() && pb == bin.len(), "stream-end", || format!("ended at {pt} of {}", text.len()));
    c.ev(if tail.is_empty() { "no text tail" } else { "text tail" });
    c.sample(|| format!("{n} items: {text}"));
    c.seen(&text);
}

// ------------------------------------------------------------------ C03

fn check_iview(c: &mut Case, what: &str, v: &IView, code: &str, raw: &[u8], index: u32, field: u32, ondex: u32) {
    let text = indexer_qb64(code, raw, index, field);
    let bin = dec(text.as_bytes()).unwrap();
    let d = format!("code {code} index {index} ondex {ondex} raw {}", hx(raw));
    c.check(v.code == code, &format!("{what}:code"), || format!("{d}: {}", v.code));
    c.check(v.raw == raw, &format!("{what}:raw"), || format!("{d}: {}", hx(&v.raw)));
    c.check(v.index == index, &format!("{what}:index"), || format!("{d}: {}", v.index));
    c.check(v.ondex == ondex, &format!("{what}:ondex"), || format!("{d}: {}", v.ondex));
    c.check(v.qb64.as_ref() == Ok(&text), &format!("{what}:qb64"), || format!("{d}: want {text} got {:?}", v.qb64));
    c.check(v.qb64b.as_deref() == Ok(text.as_bytes()), &format!("{what}:qb64b"), || format!("{d}: want {text} got {:?}", v.qb64b));
    c.check(v.qb2.as_ref() == Ok(&bin), &format!("{what}:qb2"), || format!("{d}: want {} got {:?}", hx(&bin), v.qb2.as_ref().map(|x| hx(x))));
    c.check(v.full == Ok(text.len()), &format!("{what}:full"), || format!("{d}: {:?}", v.full));
    c.evn("accessor values compared", 8);
}

fn c03_one(c: &mut Case, ic: &ICode, index: u32, field: u32, explicit: bool, raw: &[u8]) {
    let code = ic.code;
    // what other-index the value must carry
    let ondex = if ic.current_only { 0 } else if ic.os > 0 { field } else { index };
    let given = if ic.current_only {
        None
    } else if ic.os > 0 {
        if explicit || field != index { Some(field) } else { None }
    } else if explicit {
        Some(index)
    } else {
        None
    };
    let text = indexer_qb64(code, raw, index, field);
    let bin = dec(text.as_bytes()).unwrap();
    for t in ITYPES {
        if t.name == "Siger" && !SIGER_CODES.contains(&code) {
            continue;
        }
        let mut surplus = raw.to_vec();
        surplus.extend(c.rng.bytes(5));
        for (route, r) in [
            ("parts", (t.parts)(code, raw, index, given)),
            ("surplus", (t.parts)(code, &surplus, index, given)),
            ("text", (t.text)(&text)),
            ("bytes", (t.bytes)(text.as_bytes())),
            ("bin", (t.bin)(&bin)),
        ] {
            match r {
                Ok(v) => check_iview(c, &format!("{}:{route}", t.name), &v, code, raw, index, field, ondex),
                Err(e) => c.fail(&format!("refused:{}:{route}", t.name), format!("{code} index {index} other {given:?} text {text}: {e}")),
            }
            c.ev("constructions");
        }
        // refusals
        let lim = 64u32.pow(ic.ms as u32);
        for bad in [lim, lim + 1, lim * 2 + index % lim, u32::MAX] {
            c.check((t.parts)(code, raw, bad, None).is_err(), "index-overflow-accepted", || format!("{} {code} index {bad}", t.name));
            c.ev("overflow refused");
        }
        if ic.os > 0 && !ic.current_only {
            let lim = 64u32.pow(ic.os as u32);
            for bad in [lim, lim + field, u32::MAX] {
                c.check((t.parts)(code, raw, index, Some(bad)).is_err(), "ondex-overflow-accepted", || format!("{} {code} ondex {bad}", t.name));
                c.ev("overflow refused");
            }
        }
        if ic.current_only {
            for o in [0, index, field.max(1), 77] {
                c.check((t.parts)(code, raw, index, Some(o)).is_err(), "current-only-ondex-accepted", || format!("{} {code} ondex {o}", t.name));
                c.ev("current-only ondex refused");
            }
            if ic.os > 0 {
                let lim = 64u32.pow(ic.os as u32);
                let o = 1 + c.rng.below(lim as usize - 1) as u32;
                let bad = indexer_qb64(code, raw, index, o);
                let badb = dec(bad.as_bytes()).unwrap();
                c.check((t.text)(&bad).is_err(), "current-only-ondex-text-accepted", || format!("{} {bad}", t.name));
                c.check((t.bytes)(bad.as_bytes()).is_err(), "current-only-ondex-text-accepted", || format!("{} {bad}", t.name));
                c.check((t.bin)(&badb).is_err(), "current-only-ondex-binary-accepted", || format!("{} {bad}", t.name));
                c.ev("current-only ondex refused");
            }
        } else if ic.os == 0 {
            let o = index ^ (1 << c.rng.below(6));
            c.check((t.parts)(code, raw, index, Some(o)).is_err(), "mismatched-ondex-accepted", || format!("{} {code} index {index} ondex {o}", t.name));
            c.ev("mismatched ondex refused");
        }
        for k in [0, raw.len() / 2, raw.len() - 1] {
            c.check((t.parts)(code, &raw[..k], index, given).is_err(), "short-raw-accepted", || format!("{} {code} {k}", t.name));
            c.ev("short raw refused");
        }
    }
    c.seen(&(code, index, field, explicit, raw));
}

pub fn c03_random(c: &mut Case) {
    let sigs: Vec<&ICode> = INDEXED.iter().filter(|c| c.sig).collect();
    let ic = *sigs[c.index as usize % sigs.len()];
    let index = rand_field(&mut c.rng, ic.ms);
    let field = if ic.current_only { 0 } else if c.rng.chance(1, 4) && ic.os == ic.ms { index } else { rand_field(&mut c.rng, ic.os) };
    let raw = c.rng.raw(ic.raw.unwrap());
    let explicit = c.rng.bool();
    c.sample(|| format!("{} index {index} other {field}: {}", ic.code, indexer_qb64(ic.code, &raw, index, field)));
    c03_one(c, &ic, index, field, explicit, &raw);
}

/// every index value of the one- and two-digit fields, at the codec level
/// the one indexed code of variable length, whose index is its size
pub fn c03_variable(c: &mut Case) {
    let index = match c.index {
        0 => 4095,
        1 => 4001,
        _ => rand_field(&mut c.rng, 2),
    };
    let raw = c.rng.bytes(index as usize * 3);
    let text = indexer_qb64("0z", &raw, index, 0);
    let bin = dec(text.as_bytes()).unwrap();
    for (route, r) in [
        ("parts", es(<BareIx as Indexer>::new_with_code_and_raw("0z", &raw, index, None))),
        ("text", es(<BareIx as Indexer>::new_with_qb64(&text))),
        ("bin", es(<BareIx as Indexer>::new_with_qb2(&bin))),
    ] {
        match r {
            Ok(m) => {
                c.check(m.code() == "0z" && m.raw() == raw && m.index() == index && m.full_size().ok() == Some(text.len()), "variable-parts", || format!("{route} {index}: {:?}", m.full_size()));
                c.check(m.qb64().ok().as_ref() == Some(&text) && m.qb2().ok().as_ref() == Some(&bin), "variable-encoding", || format!("{route} {index}"));
            }
            Err(e) => c.fail("variable-refused", format!("{route} {index}: {e}")),
        }
        c.ev("variable constructions");
    }
    c.seen(&(index, raw));
}
pub fn c03_all_indices(c: &mut Case) {
    let sigs: Vec<&ICode> = INDEXED.iter().filter(|c| c.sig).collect();
    let ic = *sigs[c.index as usize % sigs.len()];
    let block = (c.index as usize / sigs.len()) as u32;
    let lim = 64u32.pow(ic.ms as u32);
    let raw = c.rng.bytes(ic.raw.unwrap());
    for j in 0..64u32 {
        let index = block * 64 + j;
        if index >= lim {
            return;
        }
        let field = if ic.current_only || ic.os == 0 { 0 } else { (lim - 1 - index) % 64u32.pow(ic.os as u32) };
        let given = if ic.current_only { None } else if ic.os > 0 { Some(field) } else { Some(index) };
        let ondex = if ic.current_only { 0 } else if ic.os > 0 { field } else { index };
        let text = indexer_qb64(ic.code, &raw, index, field);
        let bin = dec(text.as_bytes()).unwrap();
        let m = <BareIx as Indexer>::new_with_code_and_raw(ic.code, &raw, index, given).must("parts");
        c.check(m.qb64().ok().as_ref() == Some(&text) && m.qb2().ok().as_ref() == Some(&bin), "index-encoding", || format!("{} {index} {field}", ic.code));
        let a = <BareIx as Indexer>::new_with_qb64(&text).must("text");
        let b = <BareIx as Indexer>::new_with_qb2(&bin).must("binary");
        c.check(a == m && b == m && a.index == index && a.ondex == ondex, "index-decoding", || format!("{} {index} {field}: {} {} / {} {}", ic.code, a.index, a.ondex, b.index, b.ondex));
        c.ev("index values");
        c.seen(&(ic.code, index, field));
    }
}

// ------------------------------------------------------------------ C04

fn c04_one(c: &mut Case, code: &str, ss: usize, n: u32) {
    let text = counter_qb64(code, n);
    let bin = dec(text.as_bytes()).unwrap();
    let tail: String = (0..c.rng.below(5)).map(|_| b64_char(c.rng.below(64) as u8)).collect();
    let nb = int_b64(n as u64, ss);
    let long = format!("{text}{tail}");
    let mut binl = bin.clone();
    binl.extend(tail.bytes());
    let routes: Vec<(&str, R<Counter>)> = vec![
        ("parts", es(Counter::new_with_code_and_count(code, n))),
        ("new-parts", es(Counter::new(Some(n), None, Some(code), None, None, None))),
        ("new-b64", es(Counter::new(None, Some(&nb), Some(code), None, None, None))),
        ("text", es(Counter::new_with_qb64(&long))),
        ("new-text", es(Counter::new(None, None, None, None, Some(&text), None))),
        ("bytes", es(Counter::new_with_qb64b(long.as_bytes()))),
        ("new-bytes", es(Counter::new(None, None, None, Some(text.as_bytes()), None, None))),
        ("bin", es(Counter::new_with_qb2(&binl))),
        ("new-bin", es(Counter::new(None, None, None, None, None, Some(&bin)))),
    ];
    for (w, r) in routes {
        match r {
            Ok(k) => {
                c.check(k.code() == code, &format!("{w}:code"), || format!("{text}: {}", k.code()));
                c.check(k.count() == n, &format!("{w}:count"), || format!("{text}: {}", k.count()));
                c.check(k.qb64().ok().as_ref() == Some(&text), &format!("{w}:qb64"), || format!("{text}: {:?}", k.qb64()));
                c.check(k.qb64b().ok().as_deref() == Some(text.as_bytes()), &format!("{w}:qb64b"), || text.clone());
                c.check(k.qb2().ok().as_ref() == Some(&bin), &format!("{w}:qb2"), || format!("{text}: {:?}", k.qb2()));
                c.check(k.full_size().ok() == Some(text.len()), &format!("{w}:full"), || format!("{text}: {:?}", k.full_size()));
                c.check(k.count_as_b64(0).ok().as_ref() == Some(&nb), &format!("{w}:count_as_b64"), || format!("{text}: {:?}", k.count_as_b64(0)));
                let wide = ss + if c.rng.chance(1, 3) { c.rng.below(64) } else { c.rng.below(3) };
                c.check(k.count_as_b64(wide).ok() == Some(int_b64(n as u64, wide)), &format!("{w}:count_as_b64"), || format!("{text} width {wide}: {:?}", k.count_as_b64(wide)));
            }
            Err(e) => c.fail(&format!("refused:{w}"), format!("{text}: {e}")),
        }
        c.ev("constructions");
    }
    c.seen(&(code, n));
}

pub fn c04_small(c: &mut Case) {
    let small: Vec<(&str, usize)> = COUNTERS.iter().copied().filter(|x| x.1 == 2).collect();
    // one case is 16 counts of one code: all 4096 counts over 256 blocks
    let (code, ss) = small[c.index as usize % small.len()];
    let block = (c.index as usize / small.len()) as u32;
    for j in 0..16 {
        let n = block * 16 + j;
        if n < 4096 {
            c04_one(c, code, ss, n);
        }
    }
    c.sample(|| format!("{code} counts {}..", block * 16));
}

pub fn c04_any(c: &mut Case) {
    let (code, ss) = COUNTERS[c.index as usize % COUNTERS.len()];
    let n = rand_count(&mut c.rng, ss);
    c04_one(c, code, ss, n);
    // a count left out is one
    match guard(|| es(Counter::new(None, None, Some(code), None, None, None))) {
        Ok(Ok(k)) => {
            let one = counter_qb64(code, 1);
            c.check(k.count() == 1 && k.code() == code && k.qb64().ok().as_ref() == Some(&one), "default-count", || format!("{code}: {k:?}"));
        }
        r => c.fail("default-count", format!("{code}: {r:?}")),
    }
    // nothing at all, or a count without a code, is refused
    for r in [Counter::new(None, None, None, None, None, None), Counter::new(Some(n), None, None, None, None, None), Counter::new(None, Some("AB"), None, None, None, None), Counter::new_with_code_and_count("", n)] {
        c.check(r.is_err(), "counter-from-nothing", || format!("{r:?}"));
    }
    // too large
    let lim = 64u64.pow(ss as u32);
    for bad in [lim, lim + 1, lim + c.rng.u32() as u64 % lim, lim * 2, u32::MAX as u64] {
        if bad <= u32::MAX as u64 {
            c.check(Counter::new_with_code_and_count(code, bad as u32).is_err(), "count-overflow-accepted", || format!("{code} {bad}"));
            c.check(Counter::new(Some(bad as u32), None, Some(code), None, None, None).is_err(), "count-overflow-accepted", || format!("{code} {bad}"));
            if bad < 64u64.pow(5) {
                let b = int_b64(bad, 5);
                c.check(Counter::new(None, Some(&b), Some(code), None, None, None).is_err(), "count-b64-overflow-accepted", || format!("{code} {bad} {b}"));
            }
            c.ev("overflow refused");
        }
    }
    // Base64 counts of any length: what does not fit is refused, what is accepted has the value
    for _ in 0..4 {
        let long = c.rng.range(ss, 24);
        let lead = c.rng.below(long + 1);
        let t: String = (0..long).map(|i| if i < lead || c.rng.chance(1, 2) { 'A' } else { b64_char(c.rng.below(64) as u8) }).collect();
        let fits = long <= ss || t[..long - ss].bytes().all(|b| b == b'A');
        match guard(|| es(Counter::new(None, Some(&t), Some(code), None, None, None))) {
            Err(p) => c.fail("panicked", format!("{code} count {t:?}: {p:?}")),
            Ok(Err(_)) => { c.check(!fits || long > ss, "count-b64-refused", || format!("{code} {t}")); }
            Ok(Ok(k)) => {
                let want = t[long - ss..].bytes().fold(0u64, |v, b| v * 64 + b64_val(b).unwrap() as u64);
                c.check(fits && k.count() as u64 == want, "count-b64-overflow-accepted", || format!("{code} {t} gives {}", k.count()));
            }
        }
        c.ev("long count text");
    }
    // and what is not Base64 at all is refused
    let b = int_b64(n as u64 % 64u64.pow(ss as u32), ss);
    let odd = *c.rng.pick(&["=", " ", "\n", "+", "/", ".", "\0", "\u{e9}", "==", "%", "\u{2d0}"]);
    let at = c.rng.below(ss + 1);
    let t = if c.rng.bool() { format!("{}{odd}{}", &b[..at], &b[at..]) } else { format!("{odd}{}", &b[..ss - 1]) };
    if let Some(r) = c.total("counter-count", || format!("{t:?}"), || es(Counter::new(None, Some(&t), Some(code), None, None, None))) {
        c.check(r.is_err(), "count-not-base64-accepted", || format!("{code} {t:?}: {r:?}"));
        c.ev("count not base64 refused");
    }
    // truncated
    let text = counter_qb64(code, n);
    let bin = dec(text.as_bytes()).unwrap();
    for k in 0..text.len() {
        let t = &text[..k];
        if let Some(r) = c.total("counter-text", || t.to_string(), || Counter::new_with_qb64(t)) {
            c.check(r.is_err(), "truncated-accepted", || t.to_string());
        }
        if let Some(r) = c.total("counter-bytes", || t.to_string(), || Counter::new_with_qb64b(t.as_bytes())) {
            c.check(r.is_err(), "truncated-accepted", || t.to_string());
        }
        c.ev("truncations refused");
    }
    for k in 0..bin.len() {
        let t = &bin[..k];
        if let Some(r) = c.total("counter-bin", || hx(t), || Counter::new_with_qb2(t)) {
            c.check(r.is_err(), "truncated-accepted", || hx(t));
        }
        c.ev("truncations refused");
    }
    // unknown codes
    let s: String = (0..8).map(|_| b64_char(c.rng.below(64) as u8)).collect();
    let s = if c.rng.bool() { format!("-{}", &s[1..]) } else { s };
    let known = counter_decode(s.as_bytes());
    if let Some(r) = c.total("counter-text", || s.clone(), || Counter::new_with_qb64(&s)) {
        match (&known, &r) {
            (Some((code, n, _)), Ok(k)) => {
                c.check(k.code() == *code && k.count() == *n, "unknown", || s.clone());
            }
            (None, Err(_)) => c.ev("unknown code refused"),
            _ => c.fail("unknown-code", format!("{s}: reference {known:?} library {r:?}")),
        }
    }
    let code2 = &s[..*c.rng.pick(&[1usize, 2, 3, 5])];
    if counter_soft(code2).is_none() {
        c.check(Counter::new_with_code_and_count(code2, 1).is_err(), "unknown-code-accepted", || code2.to_string());
    }
}

pub fn c04_version(c: &mut Case) {
    // all 64^3 triples over the cases: one case per (major, minor)
    let (ma, mi) = ((c.index / 64) as u8, (c.index % 64) as u8);
    if ma > 63 {
        return;
    }
    for pa in 0..64u8 {
        let want = format!("{}{}{}", b64_char(ma), b64_char(mi), b64_char(pa));
        let a = Counter::sem_ver_to_b64(ma, mi, pa);
        let b = Counter::sem_ver_str_to_b64(&format!("{ma}.{mi}.{pa}"));
        c.check(a.as_ref().ok() == Some(&want) && b.as_ref().ok() == Some(&want), "semver", || format!("{ma}.{mi}.{pa}: {a:?} {b:?}"));
        if let Ok(v) = &a {
            let k = Counter::new(None, Some(v), Some("--AAA"), None, None, None).must("version counter");
            let text = format!("--AAA{want}");
            c.check(k.qb64().ok().as_ref() == Some(&text) && k.count_as_b64(3).ok().as_ref() == Some(&want) && k.count() == ((ma as u32) << 12 | (mi as u32) << 6 | pa as u32), "version-counter", || text.clone());
            let back = Counter::new_with_qb2(&dec(text.as_bytes()).unwrap()).must("version counter back");
            c.check(back == k, "version-counter-back", || text.clone());
        }
        c.ev("versions");
        c.seen(&(ma, mi, pa));
    }
    let short = [(format!("{ma}.{mi}"), (ma, mi, 0)), (format!("{ma}"), (ma, 0, 0)), (format!("{ma}..{mi}"), (ma, 0, mi)), (format!("{ma}.{mi}."), (ma, mi, 0)), (format!(".{ma}.{mi}"), (0, ma, mi)), (format!(".{ma}"), (0, ma, 0)), (format!("{ma}.."), (ma, 0, 0)), (format!("..{mi}"), (0, 0, mi))];
    for (s, (x, y, z)) in short {
        c.check(Counter::sem_ver_str_to_b64(&s).ok() == Some(format!("{}{}{}", b64_char(x), b64_char(y), b64_char(z))), "semver-short", || s.clone());
    }
    let big = 64 + c.rng.below(192) as u8;
    let mut p = [ma, mi, 5];
    p[c.rng.below(3)] = big;
    c.check(Counter::sem_ver_to_b64(p[0], p[1], p[2]).is_err(), "semver-out-of-range-accepted", || format!("{p:?}"));
    c.check(Counter::sem_ver_str_to_b64(&format!("{}.{}.{}", p[0], p[1], p[2])).is_err(), "semver-out-of-range-accepted", || format!("{p:?}"));
    for bad in ["1.2.3.4", "a.b.c", "-1.0.0", "1.x", "1. 2.3", "999999999999.0.0", "0.0.256", "1. .2", " .1.2", "1.2. ", "1.2.\0", "1.2.3.", "1,2,3", "1.2.3\n", "v1.2.3", "1.2.0x3", "1.2.3-a", "\u{661}.2.3", "1.2.1e1"] {
        c.check(Counter::sem_ver_str_to_b64(bad).is_err(), "semver-bad-accepted", || bad.to_string());
        c.ev("bad versions refused");
    }
}

// ------------------------------------------------------------------ C05

fn foreign(r: &mut Rng) -> char {
    *r.pick(&['=', '+', '/', '.', ' ', '\n', '\0', '~', '"', '{', '@', '[', '`', ':', ',', '*', '\u{7f}'])
}

/// text the way it arrives when it was pasted, quoted, padded or re-cased on its way
pub fn frayed(r: &mut Rng, t: &str) -> String {
    let blank = *r.pick(&[" ", "\n", "\t", "\r\n", "\u{feff}", "\0", "\u{a0}", "\u{3000}", "\u{200b}", "  "]);
    let at = |r: &mut Rng| {
        let k = r.below(t.chars().count() + 1);
        t.char_indices().nth(k).map(|x| x.0).unwrap_or(t.len())
    };
    match r.below(12) {
        0 | 1 => format!("{blank}{t}"),
        2 | 3 => format!("{t}{blank}"),
        4 => format!("{blank}{t}{blank}"),
        5 => {
            let k = at(r);
            format!("{}{blank}{}", &t[..k], &t[k..])
        }
        6 => format!("{}{t}", r.pick(&["0x", "0X", "+", "-", "0", "\"", "'", "=", "#"])),
        7 => format!("{t}{}", r.pick(&["=", "==", "===", "\"", "A", "/", ",", ".", "%3D", ";"])),
        8 => format!("{q}{t}{q}", q = r.pick(&["\"", "'", "`"])),
        9 => t.to_ascii_lowercase(),
        10 => t.to_ascii_uppercase(),
        _ => t.replace('-', "+").replace('_', "/"),
    }
}

/// one mutation of a text encoding
fn mutate_text(r: &mut Rng, t: &str, head: usize) -> String {
    let mut b: Vec<u8> = t.bytes().collect();
    let n = b.len();
    let pos = |r: &mut Rng| match r.below(4) {
        0 => r.below(n.min(head + 3)),
        1 => n - 1 - r.below(n.min(4)),
        _ => r.below(n),
    };
    if r.chance(1, 10) {
        return frayed(r, t);
    }
    match r.below(9) {
        0 => {
            let k = r.below(n);
            b.truncate(k);
        }
        1 => {
            let p = pos(r);
            b[p] = foreign(r) as u8;
        }
        2 => {
            // padding characters at the end
            let k = r.range(1, 2.min(n));
            for i in n - k..n {
                b[i] = b'=';
            }
        }
        3 => {
            let p = pos(r);
            b.remove(p);
        }
        4 => {
            let p = pos(r);
            b.insert(p, b64_char(r.below(64) as u8) as u8);
        }
        5 => {
            // single-bit flip of a digit
            let p = pos(r);
            if let Some(v) = b64_val(b[p]) {
                b[p] = ALPHABET[(v ^ (1 << r.below(6))) as usize];
            }
        }
        6 => {
            b[0] = b64_char(r.below(64) as u8) as u8;
        }
        7 => {
            let p = head.min(n - 1);
            b[p] = b64_char(r.below(64) as u8) as u8;
        }
        _ => {
            let p = pos(r);
            b[p] = b64_char(r.below(64) as u8) as u8;
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn judge_text(c: &mut Case, t: &Ty, s: &str) {
    let want = matter_decode(s.as_bytes()).filter(|d| owns(t, &d.code) && raw_ok(t, &d.code, &d.raw));
    for (route, got) in [
        ("text", c.total("matter-text", || s.to_string(), || (t.text)(s))),
        ("bytes", c.total("matter-bytes", || s.to_string(), || (t.bytes)(s.as_bytes()))),
    ] {
        let Some(got) = got else { continue };
        match (&want, got) {
            (Some(d), Ok(v)) => {
                c.check(v.code == d.code && v.raw == d.raw && v.qb64.as_deref() == Ok(&s[..d.size]), &format!("{route}:decoded-differently"), || format!("{} {}: {v:?} want {d:?}", t.name, clip(s)));
                c.ev("accepted and re-encoded");
            }
            (None, Err(_)) => c.ev("refused"),
            (None, Ok(v)) => {
                let canon = v.qb64.as_deref().map(|q| s.starts_with(q)) == Ok(true);
                c.fail(&format!("{route}:accepted-invalid{}", if canon { "" } else { ":not-canonical" }), format!("{} {}: {v:?}", t.name, clip(s)))
            }
            (Some(d), Err(e)) => c.fail(&format!("{route}:refused-valid"), format!("{} {}: {e} want {d:?}", t.name, clip(s))),
        }
    }
}

/// a byte that is not ASCII anywhere inside a valid encoding
fn judge_high_bytes(c: &mut Case, text: &str, f: impl Fn(&[u8]) -> bool) {
    for _ in 0..4 {
        let mut b: Vec<u8> = text.bytes().collect();
        let at = if c.rng.bool() { c.rng.below(b.len()) } else { c.rng.below(b.len().min(6)) };
        match c.rng.below(4) {
            0 => b[at] = 0x80 + c.rng.below(128) as u8,
            1 => b[at] |= 0x80,
            2 => {
                // a two-byte character
                b[at] = 0xc2 + c.rng.below(30) as u8;
                b.insert(at + 1, 0x80 + c.rng.below(64) as u8);
            }
            _ => {
                // a byte order mark, a zero-width or a full-width form
                let w = *c.rng.pick(&["\u{feff}", "\u{200b}", "\u{ff21}", "\u{2010}", "\u{ff3f}"]);
                b.splice(at..at + c.rng.below(2), w.bytes());
            }
        }
        let Some(took) = c.total("high-bytes", || hx(&b), || f(&b)) else { continue };
        c.check(!took, "high-bytes:accepted-invalid", || format!("{text} as {}", hx(&b)));
        c.ev("bytes outside ASCII refused");
        c.seen(&b);
    }
}

fn judge_bin(c: &mut Case, t: &Ty, b: &[u8]) {
    let want = matter_decode_b2(b).filter(|d| owns(t, &d.code) && raw_ok(t, &d.code, &d.raw));
    let Some(got) = c.total("matter-binary", || hx(b), || (t.bin)(b)) else { return };
    match (&want, got) {
        (Some(d), Ok(v)) => {
            c.check(v.code == d.code && v.raw == d.raw && v.qb2.as_deref() == Ok(&b[..d.size / 4 * 3]), "binary:decoded-differently", || format!("{} {}: {v:?} want {d:?}", t.name, hx(b)));
            c.ev("accepted and re-encoded");
        }
        (None, Err(_)) => c.ev("refused"),
        (None, Ok(v)) => c.fail("binary:accepted-invalid", format!("{} {}: {v:?}", t.name, hx(b))),
        (Some(d), Err(e)) => c.fail("binary:refused-valid", format!("{} {}: {e} want {d:?}", t.name, hx(b))),
    }
}

pub fn c05_matter(c: &mut Case) {
    let m = &MATTER[c.index as usize % MATTER.len()];
    let n = match m.raw {
        Some(n) => n,
        None => {
            let q = c.rng.below(6);
            if q == 0 && m.lead > 0 { 3 - m.lead } else { (q * 3).saturating_sub(m.lead) }
        }
    };
    let raw = c.rng.raw(n);
    let text = matter_qb64(m.code, &raw);
    let head = m.code.len() + m.soft;
    let owners: Vec<&Ty> = TYPES.iter().filter(|t| owns(t, m.code)).collect();
    c.sample(|| format!("mutations of {text}"));
    let t = *c.rng.pick(&owners);
    judge_high_bytes(c, &text, |b| (t.bytes)(b).is_ok());
    for _ in 0..24 {
        let mut s = mutate_text(&mut c.rng, &text, head);
        if c.rng.chance(1, 6) && !s.is_empty() {
            s = mutate_text(&mut c.rng, &s, head);
        }
        let t = *c.rng.pick(&owners);
        judge_text(c, t, &s);
        c.seen(&s);
        // the binary domain: mutate the binary form
        let mut b = dec(text.as_bytes()).unwrap();
        match c.rng.below(4) {
            0 => {
                let k = c.rng.below(b.len());
                b.truncate(k);
            }
            1 => {
                let p = c.rng.below(b.len().min(5));
                b[p] ^= 1 << c.rng.below(8);
            }
            2 => {
                let p = c.rng.below(b.len());
                b[p] = c.rng.u64() as u8;
            }
            _ => {
                let p = c.rng.below(b.len());
                b[p] ^= 1 << c.rng.below(8);
            }
        }
        let t = *c.rng.pick(&owners);
        judge_bin(c, t, &b);
        c.seen(&b);
    }
}

/// long material: the same strictness in both size classes
pub fn c05_large(c: &mut Case) {
    let m = *c.rng.pick(&MATTER.iter().filter(|m| m.raw.is_none()).collect::<Vec<_>>());
    let q = match c.rng.below(6) {
        0 => 4095,
        1 => 4096 + c.rng.below(3),
        2 => c.rng.range(1, 30),
        3 => c.rng.range(4000, 4100),
        4 => c.rng.range(5000, 9000),
        _ => c.rng.range(100, 4095),
    };
    // the size class that holds it
    let code = var_code(m.code, q * 3 - m.lead).unwrap();
    let raw = c.rng.raw(q * 3 - m.lead);
    let text = matter_qb64(code, &raw);
    let m = mcode(code).unwrap();
    let head = code.len() + m.soft;
    let owners: Vec<&Ty> = TYPES.iter().filter(|t| owns(t, code)).collect();
    let bare = &TYPES[0];
    judge_text(c, bare, &text);
    for _ in 0..8 {
        let mut b = text.clone().into_bytes();
        match c.rng.below(4) {
            0 => b.truncate(b.len() - 1 - c.rng.below(5)),
            1 => {
                let p = c.rng.below(b.len());
                b[p] = foreign(&mut c.rng) as u8;
            }
            2 => {
                let p = b.len() - 1 - c.rng.below(4);
                b[p] = b64_char(c.rng.below(64) as u8) as u8;
            }
            _ => {
                let p = head + c.rng.below(4);
                b[p] = b64_char(c.rng.below(64) as u8) as u8;
            }
        }
        let s = String::from_utf8(b).unwrap();
        let t = if c.rng.bool() { bare } else { *c.rng.pick(&owners) };
        judge_text(c, t, &s);
        c.seen(&s);
    }
    // every bit of the first four material bytes, and cuts at the end
    let b = dec(text.as_bytes()).unwrap();
    for bit in 0..32 {
        let mut x = b.clone();
        let p = head * 3 / 4 + bit / 8;
        if p < x.len() {
            x[p] ^= 1 << (bit % 8);
            judge_bin(c, bare, &x);
        }
        c.ev("lead bits of long material");
    }
    for k in 1..4 {
        judge_bin(c, bare, &b[..b.len() - k]);
    }
    if q >= 4096 {
        c.ev("large size class");
    }
    c.sample(|| format!("{code} with {} bytes", raw.len()));
    c.seen(&text);
}

/// every value of the pad / lead positions, exhaustively
pub fn c05_pads(c: &mut Case) {
    let m = &MATTER[c.index as usize % MATTER.len()];
    let n = match m.raw {
        Some(n) => n,
        None => 6 - m.lead,
    };
    let raw = c.rng.raw(n);
    let text = matter_qb64(m.code, &raw);
    let head = m.code.len() + m.soft;
    let owners: Vec<&Ty> = TYPES.iter().filter(|t| owns(t, m.code)).collect();
    for off in 0..3usize {
        for v in 0..64u8 {
            let p = head + off;
            if p >= text.len() {
                continue;
            }
            let mut b: Vec<u8> = text.bytes().collect();
            b[p] = ALPHABET[v as usize];
            let s = String::from_utf8(b.clone()).unwrap();
            let t = owners[(v as usize + off) % owners.len()];
            judge_text(c, t, &s);
            judge_bin(c, t, &dec(&b).unwrap());
            c.ev("pad and lead values");
            c.seen(&s);
        }
    }
    for v in 0..=127u8 {
        let p = c.rng.below(text.len());
        let mut b: Vec<u8> = text.bytes().collect();
        b[p] = v;
        let s = String::from_utf8(b).unwrap();
        judge_text(c, &TYPES[0], &s);
    }
    // padding characters are refused wherever a short material could hide
    for k in 1..=4 {
        let mut b: Vec<u8> = text.bytes().collect();
        let l = b.len();
        if l < k + head {
            continue;
        }
        for i in l - k..l {
            b[i] = b'=';
        }
        let s = String::from_utf8(b).unwrap();
        judge_text(c, &TYPES[0], &s);
        c.ev("equals padding tried");
        // a short raw encoded with its own padding in the same number of characters
    }
}

fn ijudge_text(c: &mut Case, t: &ITy, s: &str) {
    let want = indexer_decode(s.as_bytes());
    if let Some(d) = &want {
        if !icode(&d.code).unwrap().sig {
            return;
        }
    }
    let sig = s.get(..1).map(|x| icode(x).is_some()).unwrap_or(false) || s.get(..2).map(|x| icode(x).map(|i| i.sig).unwrap_or(false)).unwrap_or(false);
    let want = want.filter(|d| t.name != "Siger" || SIGER_CODES.contains(&d.code.as_str()));
    for (route, got) in [
        ("text", c.total("indexer-text", || s.to_string(), || (t.text)(s))),
        ("bytes", c.total("indexer-bytes", || s.to_string(), || (t.bytes)(s.as_bytes()))),
    ] {
        let Some(got) = got else { continue };
        match (&want, got) {
            (Some(d), Ok(v)) => {
                c.check(v.code == d.code && v.raw == d.raw && v.index == d.index && v.ondex == d.ondex.unwrap_or(0) && v.qb64.as_deref() == Ok(&s[..d.size]), &format!("indexed-{route}:decoded-differently"), || format!("{} {}: {v:?} want {d:?}", t.name, clip(s)));
                c.ev("accepted and re-encoded");
            }
            (None, Err(_)) => c.ev("refused"),
            (None, Ok(v)) if sig => c.fail(&format!("indexed-{route}:accepted-invalid"), format!("{} {}: {v:?}", t.name, clip(s))),
            (None, Ok(v)) => {
                // test codes: at least canonical
                c.check(v.qb64.as_deref().map(|q| s.starts_with(q)) == Ok(true), &format!("indexed-{route}:test-code-not-canonical"), || format!("{} {}: {v:?}", t.name, clip(s)));
            }
            (Some(d), Err(e)) => c.fail(&format!("indexed-{route}:refused-valid"), format!("{} {}: {e} want {d:?}", t.name, clip(s))),
        }
    }
}

fn ijudge_bin(c: &mut Case, t: &ITy, b: &[u8]) {
    let whole = b.len() / 3 * 3;
    let txt = enc(&b[..whole]);
    let want = indexer_decode(txt.as_bytes());
    if let Some(d) = &want {
        if !icode(&d.code).unwrap().sig {
            return;
        }
    }
    let want = want.filter(|d| t.name != "Siger" || SIGER_CODES.contains(&d.code.as_str()));
    let sig = txt.get(..1).map(|x| icode(x).is_some()).unwrap_or(false) || txt.get(..2).map(|x| icode(x).map(|i| i.sig).unwrap_or(false)).unwrap_or(false);
    let Some(got) = c.total("indexer-binary", || hx(b), || (t.bin)(b)) else { return };
    match (&want, got) {
        (Some(d), Ok(v)) => {
            c.check(v.code == d.code && v.raw == d.raw && v.index == d.index && v.ondex == d.ondex.unwrap_or(0) && v.qb2.as_deref() == Ok(&b[..d.size / 4 * 3]), "indexed-binary:decoded-differently", || format!("{} {}: {v:?} want {d:?}", t.name, hx(b)));
            c.ev("accepted and re-encoded");
        }
        (None, Err(_)) => c.ev("refused"),
        (None, Ok(v)) if sig => c.fail("indexed-binary:accepted-invalid", format!("{} {}: {v:?}", t.name, hx(b))),
        (None, Ok(v)) => {
            c.check(v.qb2.as_deref().map(|q| b.starts_with(q)) == Ok(true), "indexed-binary:test-code-not-canonical", || format!("{} {}: {v:?}", t.name, hx(b)));
        }
        (Some(d), Err(e)) => c.fail("indexed-binary:refused-valid", format!("{} {}: {e} want {d:?}", t.name, hx(b))),
    }
}

pub fn c05_indexer(c: &mut Case) {
    let (text, code, _, _, _) = rand_indexed(&mut c.rng);
    let ic = icode(code).unwrap();
    let head = code.len() + ic.ms + ic.os;
    c.sample(|| format!("mutations of {text}"));
    let t = &ITYPES[c.rng.below(2)];
    judge_high_bytes(c, &text, |b| (t.bytes)(b).is_ok());
    for _ in 0..16 {
        let s = mutate_text(&mut c.rng, &text, head);
        let t = &ITYPES[c.rng.below(2)];
        ijudge_text(c, t, &s);
        c.seen(&s);
        let mut b = dec(text.as_bytes()).unwrap();
        match c.rng.below(4) {
            0 => {
                let k = c.rng.below(b.len());
                b.truncate(k);
            }
            1 => {
                let p = c.rng.below(b.len().min(8));
                b[p] ^= 1 << c.rng.below(8);
            }
            _ => {
                let p = c.rng.below(b.len());
                b[p] ^= 1 << c.rng.below(8);
            }
        }
        ijudge_bin(c, t, &b);
        c.seen(&b);
    }
    // all values of the characters after the head
    for off in 0..2 {
        for v in 0..64u8 {
            let mut b: Vec<u8> = text.bytes().collect();
            b[head + off] = ALPHABET[v as usize];
            let s = String::from_utf8(b.clone()).unwrap();
            ijudge_text(c, &ITYPES[v as usize % 2], &s);
            ijudge_bin(c, &ITYPES[v as usize % 2], &dec(&b).unwrap());
            c.ev("pad and lead values");
        }
    }
}

pub fn c05_counter(c: &mut Case) {
    let (code, ss) = *c.rng.pick(COUNTERS);
    let n = rand_count(&mut c.rng, ss);
    let text = counter_qb64(code, n);
    judge_high_bytes(c, &text, |b| Counter::new_with_qb64b(b).is_ok());
    for _ in 0..24 {
        let s = mutate_text(&mut c.rng, &text, code.len());
        let want = counter_decode(s.as_bytes());
        for (route, got) in [
            ("text", c.total("counter-text", || s.clone(), || es(Counter::new_with_qb64(&s)))),
            ("bytes", c.total("counter-bytes", || s.clone(), || es(Counter::new_with_qb64b(s.as_bytes())))),
        ] {
            let Some(got) = got else { continue };
            match (&want, got) {
                (Some((code, n, sz)), Ok(k)) => {
                    c.check(k.code() == *code && k.count() == *n && k.qb64().ok().as_deref() == Some(&s[..*sz]), &format!("counter-{route}:decoded-differently"), || format!("{s}: {k:?}"));
                    c.ev("accepted and re-encoded");
                }
                (None, Err(_)) => c.ev("refused"),
                (w, g) => c.fail(&format!("counter-{route}:acceptance"), format!("{s}: want {w:?} got {g:?}")),
            }
        }
        c.seen(&s);
        let mut b = dec(text.as_bytes()).unwrap();
        if c.rng.chance(1, 4) {
            let k = c.rng.below(b.len());
            b.truncate(k);
        } else {
            let p = c.rng.below(b.len());
            b[p] ^= 1 << c.rng.below(8);
        }
        let whole = b.len() / 3 * 3;
        let want = counter_decode(enc(&b[..whole]).as_bytes());
        let Some(got) = c.total("counter-binary", || hx(&b), || es(Counter::new_with_qb2(&b))) else { continue };
        match (&want, got) {
            (Some((code, n, sz)), Ok(k)) => {
                c.check(k.code() == *code && k.count() == *n && k.qb2().ok().as_deref() == Some(&b[..sz / 4 * 3]), "counter-binary:decoded-differently", || format!("{}: {k:?}", hx(&b)));
                c.ev("accepted and re-encoded");
            }
            (None, Err(_)) => c.ev("refused"),
            (w, g) => c.fail("counter-binary:acceptance", format!("{}: want {w:?} got {g:?}", hx(&b))),
        }
    }
    c.sample(|| format!("mutations of {text}"));
}

/// inputs that start with a counter or op code are refused as primitives, and so on
pub fn c05_wrong_kind(c: &mut Case) {
    for first in ['-', '_'] {
        let s: String = std::iter::once(first).chain((0..131).map(|_| b64_char(c.rng.below(64) as u8))).collect();
        for t in TYPES {
            judge_text(c, t, &s);
            judge_bin(c, t, &dec(s.as_bytes()).unwrap());
        }
        for t in ITYPES {
            ijudge_text(c, t, &s);
            ijudge_bin(c, t, &dec(s.as_bytes()).unwrap());
        }
        c.seen(&s);
    }
    // all one- to four-character code heads
    let s: String = (0..176).map(|_| b64_char(c.rng.below(64) as u8)).collect();
    let h = c.rng.below(64) as u8;
    let s = format!("{}{}", b64_char(h), &s[1..]);
    for t in [&TYPES[0], &TYPES[1 + c.rng.below(TYPES.len() - 1)]] {
        judge_text(c, t, &s);
        judge_bin(c, t, &dec(s.as_bytes()).unwrap());
    }
    ijudge_text(c, &ITYPES[0], &s);
    ijudge_bin(c, &ITYPES[0], &dec(s.as_bytes()).unwrap());
    if first_is_counter(&s) {
        c.ev("counter heads");
    }
    let k = Counter::new_with_qb64(&format!("_{}", &s[1..]));
    c.check(k.is_err(), "op-code-accepted-as-counter", || s.clone());
    c.seen(&s);
}
fn first_is_counter(s: &str) -> bool {
    s.starts_with('-')
}

// ------------------------------------------------------------------ C06

/// hostile text: any shape a parser may meet
pub fn hostile_text(r: &mut Rng) -> String {
    let base = match r.below(4) {
        0 => valid_matter(r).0,
        1 => rand_indexed(r).0,
        2 => {
            let (c, ss) = *r.pick(COUNTERS);
            counter_qb64(c, rand_count(r, ss))
        }
        _ => {
            let n = r.below(180);
            (0..n).map(|_| b64_char(r.below(64) as u8)).collect()
        }
    };
    if r.chance(1, 8) {
        return frayed(r, &base);
    }
    let mut chars: Vec<char> = base.chars().collect();
    for _ in 0..r.below(4) {
        if chars.is_empty() {
            break;
        }
        let p = if r.bool() { r.below(chars.len().min(6)) } else { r.below(chars.len()) };
        match r.below(8) {
            0 => chars[p] = *r.pick(&['é', '€', '𝄞', '\u{0}', '=', '-', '_', '\u{ffff}', 'ß', '中']),
            1 => chars.insert(p, *r.pick(&['é', '€', '𝄞', '=', '-', '_'])),
            2 => {
                let k = p;
                chars.truncate(k);
            }
            3 => {
                chars.remove(p);
            }
            4 => chars[p] = foreign(r),
            5 => chars[p] = b64_char(r.below(64) as u8),
            6 => {
                // small size fields
                let d = *r.pick(&['A', 'B', '_', 'C']);
                for i in 1..chars.len().min(8) {
                    if r.bool() {
                        chars[i] = d;
                    }
                }
            }
            _ => {
                let n = chars.len();
                for i in p..n.min(p + 4) {
                    chars[i] = '=';
                }
            }
        }
    }
    chars.into_iter().collect()
}

/// heads that exercise every branch of the code tables, then junk
pub fn code_head(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(5) {
        0 => s += r.pick(MATTER).code,
        1 => s += r.pick(INDEXED).code,
        2 => s += r.pick(COUNTERS).0,
        3 => {
            for _ in 0..r.range(0, 4) {
                s.push(b64_char(r.below(64) as u8));
            }
        }
        _ => {
            s.push(*r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '_', 'é', '€']));
            for _ in 0..r.below(3) {
                s.push(*r.pick(&['A', 'B', 'z', '0', 'é', '=', '€']));
            }
        }
    }
    s
}

pub fn c06_text(c: &mut Case) {
    for _ in 0..8 {
        let s = match c.rng.below(3) {
            0 => {
                let mut s = code_head(&mut c.rng);
                let fill = *c.rng.pick(&['A', '_', 'B', '=', 'é', 'é']);
                let n = c.rng.below(110);
                for _ in 0..n {
                    s.push(if c.rng.chance(3, 4) { fill } else { b64_char(c.rng.below(64) as u8) });
                }
                s
            }
            _ => hostile_text(&mut c.rng),
        };
        let code = code_head(&mut c.rng);
        for t in TYPES {
            c.total(&format!("{}:text", t.name), || s.clone(), || (t.text)(&s).is_ok()).map(|ok| c.ev(if ok { "accepted" } else { "refused" }));
            c.total(&format!("{}:bytes", t.name), || s.clone(), || (t.bytes)(s.as_bytes()).is_ok());
            c.total(&format!("{}:text+code", t.name), || format!("{s} code {code}"), || (t.text_with_code)(&s, &code).is_ok());
            extra_accessors(c, t.name, &s);
        }
        for t in ITYPES {
            c.total(&format!("{}:text", t.name), || s.clone(), || (t.text)(&s).is_ok()).map(|ok| c.ev(if ok { "accepted" } else { "refused" }));
            c.total(&format!("{}:bytes", t.name), || s.clone(), || (t.bytes)(s.as_bytes()).is_ok());
        }
        c.total("Counter:text", || s.clone(), || es(Counter::new_with_qb64(&s)).map(|k| counter_all(&k)).is_ok());
        c.total("Counter:bytes", || s.clone(), || es(Counter::new_with_qb64b(s.as_bytes())).map(|k| counter_all(&k)).is_ok());
        c.total("Counter:b64", || s.clone(), || es(Counter::new(None, Some(&s), Some(&code), None, None, None)).map(|k| counter_all(&k)).is_ok());
        c.total("Counter:semver", || s.clone(), || Counter::sem_ver_str_to_b64(&s).is_ok());
        c.evn("calls", TYPES.len() as u64 * 3 + 8);
        c.seen(&s);
        c.sample(|| s.clone());
    }
}

fn counter_all(k: &Counter) -> usize {
    k.code().len() + k.count() as usize % 7 + k.qb64().map(|s| s.len()).unwrap_or(0) + k.qb64b().map(|s| s.len()).unwrap_or(0)
        + k.qb2().map(|s| s.len()).unwrap_or(0) + k.full_size().unwrap_or(0) + k.count_as_b64(0).map(|s| s.len()).unwrap_or(0)
}

/// type-specific accessors of a value read from text
fn extra_accessors(c: &mut Case, name: &str, s: &str) {
    use cesride::*;
    match name {
        "Verfer" => {
            if let Some(Ok(v)) = c.total("Verfer", || s.to_string(), || Verfer::new_with_qb64(s)) {
                c.total("Verfer:verify", || s.to_string(), || v.verify(s.as_bytes(), b"abc").is_ok());
            }
        }
        "Diger" => {
            if let Some(Ok(v)) = c.total("Diger", || s.to_string(), || Diger::new_with_qb64(s)) {
                c.total("Diger:verify", || s.to_string(), || v.verify(s.as_bytes()).is_ok());
                c.total("Diger:compare", || s.to_string(), || v.compare(b"abc", Some(s.as_bytes()), None).is_ok());
            }
        }
        "Number" => {
            if let Some(Ok(v)) = c.total("Number", || s.to_string(), || Number::new_with_qb64(s)) {
                c.total("Number:acc", || s.to_string(), || (v.num().is_ok(), v.numh().is_ok(), v.positive().is_ok()));
            }
            c.total("Number:numh", || s.to_string(), || Number::new_with_numh(s).is_ok());
        }
        "Seqner" => {
            if let Some(Ok(v)) = c.total("Seqner", || s.to_string(), || Seqner::new_with_qb64(s)) {
                c.total("Seqner:acc", || s.to_string(), || (v.sn().is_ok(), v.snh().is_ok()));
            }
            c.total("Seqner:snh", || s.to_string(), || Seqner::new_with_snh(s).is_ok());
        }
        "Dater" => {
            if let Some(Ok(v)) = c.total("Dater", || s.to_string(), || Dater::new_with_qb64(s)) {
                c.total("Dater:acc", || s.to_string(), || (v.dts().is_ok(), v.dtsb().is_ok()));
            }
            if let Some(Ok(v)) = c.total("Dater:dts", || s.to_string(), || Dater::new_with_dts(s, None)) {
                c.total("Dater:acc", || s.to_string(), || (v.dts().is_ok(), v.dtsb().is_ok()));
            }
        }
        "Bexter" => {
            if let Some(Ok(v)) = c.total("Bexter", || s.to_string(), || Bexter::new_with_qb64(s)) {
                c.total("Bexter:bext", || s.to_string(), || v.bext().is_ok());
            }
            if let Some(Ok(v)) = c.total("Bexter:new", || s.to_string(), || Bexter::new_with_bext(s)) {
                c.total("Bexter:bext", || s.to_string(), || v.bext().is_ok());
            }
        }
        "Pather" => {
            if let Some(Ok(v)) = c.total("Pather", || s.to_string(), || Pather::new_with_qb64(s)) {
                c.total("Pather:acc", || s.to_string(), || (v.bext().is_ok(), v.path().is_ok()));
            }
            if let Some(Ok(v)) = c.total("Pather:new", || s.to_string(), || Pather::new_with_bext(s)) {
                c.total("Pather:acc", || s.to_string(), || (v.bext().is_ok(), v.path().is_ok()));
            }
        }
        "Salter" => {
            if let Some(Ok(v)) = c.total("Salter", || s.to_string(), || Salter::new_with_qb64(s, None)) {
                c.total("Salter:acc", || s.to_string(), || v.tier());
                if c.index % 16 == 0 {
                    c.total("Salter:signer", || s.to_string(), || v.signer(None, None, Some(s), None, Some(true)).is_ok());
                }
            }
        }
        "Siger" => {}
        _ => {}
    }
}

pub fn c06_binary(c: &mut Case) {
    for _ in 0..8 {
        let mut b = match c.rng.below(4) {
            0 => {
                let n = c.rng.below(120);
                c.rng.raw(n)
            }
            1 => dec(valid_matter(&mut c.rng).0.as_bytes()).unwrap(),
            2 => dec(rand_indexed(&mut c.rng).0.as_bytes()).unwrap(),
            _ => {
                // a chosen head sextet sequence, then junk
                let mut s: String = code_head(&mut c.rng).chars().filter(|x| x.is_ascii() && b64_val(*x as u8).is_some()).collect();
                let n = c.rng.below(60);
                for _ in 0..n {
                    s.push(*c.rng.pick(&['A', '_', 'B']));
                }
                while s.len() % 4 != 0 {
                    s.push('A');
                }
                dec(s.as_bytes()).unwrap()
            }
        };
        for _ in 0..c.rng.below(3) {
            if b.is_empty() {
                break;
            }
            let p = c.rng.below(b.len());
            match c.rng.below(3) {
                0 => b.truncate(p),
                1 => b[p] ^= 1 << c.rng.below(8),
                _ => b[p] = c.rng.u64() as u8,
            }
        }
        let code = code_head(&mut c.rng);
        for t in TYPES {
            c.total(&format!("{}:binary", t.name), || hx(&b), || (t.bin)(&b).is_ok()).map(|ok| c.ev(if ok { "accepted" } else { "refused" }));
            c.total(&format!("{}:bytes-any", t.name), || hx(&b), || (t.bytes)(&b).is_ok());
            c.total(&format!("{}:binary+code", t.name), || format!("{} {code}", hx(&b)), || (t.bin_with_code)(&b, &code).is_ok());
            c.total(&format!("{}:raw", t.name), || format!("{} code {code}", hx(&b)), || (t.raw)(&b, Some(&code)).is_ok()).map(|ok| c.ev(if ok { "accepted" } else { "refused" }));
            c.total(&format!("{}:raw-nocode", t.name), || hx(&b), || (t.raw)(&b, None).is_ok());
        }
        for t in ITYPES {
            c.total(&format!("{}:binary", t.name), || hx(&b), || (t.bin)(&b).is_ok()).map(|ok| c.ev(if ok { "accepted" } else { "refused" }));
            c.total(&format!("{}:bytes-any", t.name), || hx(&b), || (t.bytes)(&b).is_ok());
            let (i, o) = (c.rng.u32() >> c.rng.below(32), c.rng.u32() >> c.rng.below(32));
            let o = if c.rng.bool() { Some(o) } else { None };
            c.total(&format!("{}:parts", t.name), || format!("{} code {code} {i} {o:?}", hx(&b)), || (t.parts)(&code, &b, i, o).is_ok());
        }
        let n = c.rng.u32() >> c.rng.below(32);
        c.total("Counter:parts", || format!("{code} {n}"), || es(Counter::new_with_code_and_count(&code, n)).map(|k| counter_all(&k)).is_ok());
        c.total("Counter:binary", || hx(&b), || es(Counter::new_with_qb2(&b)).map(|k| counter_all(&k)).is_ok());
        c.total("Counter:bytes-any", || hx(&b), || es(Counter::new_with_qb64b(&b)).map(|k| counter_all(&k)).is_ok());
        c.evn("calls", TYPES.len() as u64 * 5 + 9);
        c.seen(&b);
        c.sample(|| hx(&b));
    }
}

/// short inputs, exhaustively: every one- and two-byte input, and 3-byte heads by blocks
pub fn c06_short(c: &mut Case) {
    let i = c.index as u32;
    let inputs: Vec<Vec<u8>> = if i < 256 {
        let mut v = vec![vec![i as u8]];
        v.extend((0..=255u8).map(|j| vec![i as u8, j]));
        v
    } else {
        let h = c.rng.bytes(2);
        (0..=255u8).map(|j| vec![h[0], h[1], j]).collect()
    };
    for b in &inputs {
        for t in [&TYPES[0], &TYPES[3], &TYPES[11]] {
            c.total(&format!("{}:short-bin", t.name), || hx(b), || (t.bin)(b).is_ok());
            c.total(&format!("{}:short-bytes", t.name), || hx(b), || (t.bytes)(b).is_ok());
        }
        c.total("Indexer:short-bin", || hx(b), || (ITYPES[0].bin)(b).is_ok());
        c.total("Indexer:short-bytes", || hx(b), || (ITYPES[0].bytes)(b).is_ok());
        c.total("Counter:short-bin", || hx(b), || Counter::new_with_qb2(b).is_ok());
        c.total("Counter:short-bytes", || hx(b), || Counter::new_with_qb64b(b).is_ok());
        c.evn("calls", 10);
        c.seen(b);
    }
}

// ------------------------------------------------------------------ C08

pub fn nontrans(code: &str) -> bool {
    ["B", "1AAA", "1AAC", "1AAI"].contains(&code)
}
pub fn is_digest(code: &str) -> bool {
    ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"].contains(&code)
}

pub fn c08_matrix(c: &mut Case) {
    let m = &MATTER[c.index as usize % MATTER.len()];
    let n = match m.raw {
        Some(n) => n,
        None => [3usize, 2, 1][m.lead] + 3 * c.rng.below(4),
    };
    let raw = c.rng.bytes(n);
    let text = matter_qb64(m.code, &raw);
    let bin = dec(text.as_bytes()).unwrap();
    for t in TYPES.iter().skip(1) {
        let ok = owns(t, m.code);
        // raw with a variable code changes it to the class that fits
        let rcode = var_code(m.code, n).unwrap_or(m.code);
        let good = t.codes[c.rng.below(t.codes.len())];
        let routes: Vec<(&str, bool, R<View>)> = vec![
            ("raw", owns(t, rcode), (t.raw)(&raw, Some(m.code))),
            ("text", ok, (t.text)(&text)),
            ("bytes", ok, (t.bytes)(text.as_bytes())),
            ("bin", ok, (t.bin)(&bin)),
            // a code argument never lets foreign material in
            ("text+own-code", ok, (t.text_with_code)(&text, good)),
            ("bin+own-code", ok, (t.bin_with_code)(&bin, good)),
        ];
        for (route, ok, r) in routes {
            match (ok, r) {
                (true, Ok(v)) => {
                    c.check(owns(t, &v.code), &format!("{}:{route}:code-outside-type", t.name), || format!("{text}: {}", v.code));
                    c.check(v.transferable != nontrans(&v.code), &format!("{}:transferable", t.name), || format!("{text}: {}", v.transferable));
                    c.check(v.digestive == is_digest(&v.code), &format!("{}:digestive", t.name), || format!("{text}: {}", v.digestive));
                    c.ev("own code accepted");
                }
                (false, Err(_)) => c.ev("foreign code refused"),
                (true, Err(e)) => {
                    // value constraints of key material are not the subject here
                    if !(t.name == "Signer" && !raw_ok(t, m.code, &raw)) {
                        c.fail(&format!("{}:{route}:own-code-refused", t.name), format!("{text}: {e}"));
                    }
                }
                (false, Ok(v)) => c.fail(&format!("{}:{route}:foreign-code-accepted", t.name), format!("{text} (code argument {good}): {v:?}")),
            }
            c.seen(&(t.name, route, &text));
        }
        // text of an own code with a foreign code argument: the value still has an own code
        if ok {
            let other = MATTER[c.rng.below(MATTER.len())].code;
            if let Ok(v) = (t.text_with_code)(&text, other) {
                c.check(owns(t, &v.code) && v.code == m.code, &format!("{}:code-argument-overrides", t.name), || format!("{text} {other}: {}", v.code));
            }
        }
        // default code for raw
        if let Some(d) = t.default {
            let dn = mcode(d).unwrap().raw;
            if let Some(dn) = dn {
                let raw = c.rng.bytes(dn);
                if raw_ok(t, d, &raw) {
                    match (t.raw)(&raw, None) {
                        Ok(v) => {
                            c.check(v.code == d, &format!("{}:default-code", t.name), || v.code.clone());
                            c.ev("default codes taken");
                        }
                        Err(e) => c.fail(&format!("{}:default-code-refused", t.name), e),
                    }
                }
            }
        }
    }
    // bare codec: reports by code
    let v = (TYPES[0].text)(&text).must("bare");
    c.check(v.transferable != nontrans(m.code) && v.digestive == is_digest(m.code), "bare:properties", || text.clone());
    c.sample(|| format!("{} against {} types: {text}", m.code, TYPES.len() - 1));
}

pub fn c08_indexed(c: &mut Case) {
    let ic = INDEXED[c.index as usize % INDEXED.len()];
    let siger = &ITYPES[1];
    let ok = SIGER_CODES.contains(&ic.code);
    let index = c.rng.below(60) as u32 + 1;
    let n = ic.raw.unwrap_or(index as usize * 3);
    let raw = c.rng.bytes(n);
    let field = if ic.current_only || ic.os == 0 { 0 } else { rand_field(&mut c.rng, ic.os) };
    let given = if ic.current_only || ic.os == 0 { None } else { Some(field) };
    let text = indexer_qb64(ic.code, &raw, index, field);
    let bin = dec(text.as_bytes()).unwrap();
    for (route, r) in [
        ("parts", (siger.parts)(ic.code, &raw, index, given)),
        ("text", (siger.text)(&text)),
        ("bytes", (siger.bytes)(text.as_bytes())),
        ("bin", (siger.bin)(&bin)),
    ] {
        match (ok, r) {
            (true, Ok(v)) => {
                c.check(v.code == ic.code, "Siger:code", || text.clone());
                c.ev("own code accepted");
            }
            (false, Err(_)) => c.ev("foreign code refused"),
            (true, Err(e)) => c.fail(&format!("Siger:{route}:own-code-refused"), format!("{text}: {e}")),
            (false, Ok(v)) => c.fail(&format!("Siger:{route}:foreign-code-accepted"), format!("{text}: {v:?}")),
        }
        c.seen(&(route, &text));
    }
    // unindexed material and counters are not indexed signatures
    let s = cesr::valid_matter(&mut c.rng).0;
    let _ = c.total("Siger:foreign", || s.clone(), || (siger.text)(&s).is_ok());
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "an execution is one code x raw value x owning type, built by five routes and compared with the reference encoder; distinct by (type, code, raw)",
            sections: vec![sec("fixed", 24_000, 400_000, c01_fixed), sec("variable", 3_600, 40_000, c01_variable), sec("limits", 2, 12, c01_limits)],
            require: vec![("constructions", 50_000), ("short raw refused", 5_000), ("promoted to large class", 5), ("lead 1", 50), ("lead 2", 50), ("over-large refused", 1)],
            assumptions: vec!["the reference code table in harness/src/cesr.rs matches the CESR specification"],
            termination: true,
        },
        Property {
            id: "C02",
            rule: "an execution is one stream of primitives, indexed signatures and counters, built and parsed back in both domains; distinct by stream text",
            sections: vec![sec("streams", 120_000, 300_000, c02_streams)],
            require: vec![("items recovered", 20_000), ("text tail", 500)],
            assumptions: vec!["the kind of the next stream element is known to the reader, as CESR cold-start and counters provide"],
            termination: true,
        },
        Property {
            id: "C03",
            rule: "an execution is one (code, index, other-index, raw) built from parts, text and binary and compared with the reference; distinct by that tuple",
            sections: vec![sec("random", 120_000, 300_000, c03_random), sec("variable", 400, 4_096, c03_variable), sec("all-indices", 16 * 64, 16 * 4096, c03_all_indices)],
            require: vec![("constructions", 20_000), ("overflow refused", 5_000), ("current-only ondex refused", 1000), ("mismatched ondex refused", 500), ("index values", 10_000)],
            assumptions: vec!["only the sixteen signature codes; the three test codes are covered for totality (C06)"],
            termination: true,
        },
        Property {
            id: "C04",
            rule: "an execution is one (code, count) through nine construction routes, exhaustive for two-digit counters; distinct by (code, count)",
            sections: vec![sec("small-exhaustive", 13 * 256, 13 * 256, c04_small), sec("any", 60_000, 200_000, c04_any), sec("version", 4096, 4096, c04_version)],
            require: vec![("constructions", 100_000), ("overflow refused", 500), ("truncations refused", 5_000), ("versions", 100_000), ("unknown code refused", 100)],
            assumptions: vec!["the reference counter table matches the specification"],
            termination: true,
        },
        Property {
            id: "C05",
            rule: "an execution is one mutated encoding judged by the strict reference decoder (accepted and refused sets must coincide); distinct by mutated input",
            sections: vec![sec("matter", 36_000, 400_000, c05_matter), sec("pads", 2_880, 20_000, c05_pads), sec("large", 1_600, 16_000, c05_large), sec("indexer", 9_000, 100_000, c05_indexer), sec("counter", 6_000, 60_000, c05_counter), sec("wrong-kind", 9_000, 100_000, c05_wrong_kind)],
            require: vec![("refused", 50_000), ("accepted and re-encoded", 20_000), ("pad and lead values", 20_000), ("equals padding tried", 500)],
            assumptions: vec!["input slices may be longer than the primitive; only its own characters are judged"],
            termination: true,
        },
        Property {
            id: "C06",
            rule: "an execution is one hostile input given to every constructor of every type, and all accessors of what is accepted; distinct by input",
            sections: vec![sec("text", 32_000, 300_000, c06_text), sec("binary", 24_000, 300_000, c06_binary), sec("short", 512, 4_000, c06_short)],
            require: vec![("calls", 1_000_000), ("accepted", 20_000), ("refused", 200_000)],
            assumptions: vec!["built with overflow checks and debug assertions on, so wrapped arithmetic is a crash"],
            termination: true,
        },
        Property {
            id: "C08",
            rule: "an execution is one (type, code, route) attempt; distinct by type, route and material",
            sections: vec![sec("matrix", 60_000, 200_000, c08_matrix), sec("indexed", 60_000, 100_000, c08_indexed)],
            require: vec![("own code accepted", 20_000), ("foreign code refused", 100_000)],
            assumptions: vec!["typed values are built through their own constructors; the bare codec trait accepts every code by design"],
            termination: true,
        },
    ]
}
