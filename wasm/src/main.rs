//! C31: the WebAssembly bindings against the core library, operation by operation on the same inputs.
use cesr_monitor::cesr;
use cesr_monitor::fw::*;
use cesr_monitor::jsn;
use cesr_monitor::p_codec::{frayed, hostile_text};
use cesr_monitor::p_digest::DIGEST_CODES;
use cesr_monitor::p_prefix::{inception, key_text, KEY_CODES};
use cesr_monitor::p_said::{document, embed};
use cesr_monitor::p_serder::{event, key_event};
use cesr_monitor::p_sign::{rand_msg, rand_seed, sig_code, verfer_code, SUITES};
use cesr_monitor::p_tholder::{canonical, clauses, nested};
use cesr_monitor::p_total::wild;
use cesr_monitor::types::{SIGER_CODES, TYPES};
use cesride::{
    data::Value, Bext, Bexter, Cigar, Dater, Diger, Indexer, Matter, Number, Prefixer, Sadder, Saider,
    Salter, Seqner, Serder, Siger, Signer, Tholder, Verfer,
};
use cesride_wasm as w;
use cesride_wasm::{
    BexterWrapper, CigarWrapper, DaterWrapper, DigerWrapper, NumberWrapper, PrefixerWrapper,
    SaiderWrapper, SalterWrapper, SeqnerWrapper, SerderWrapper, SigerWrapper, SignerWrapper,
    TholderWrapper, U128Wrapper, ValueWrapper, VerferWrapper,
};
use serde_json::{json, Map, Value as J};
use std::fmt::Debug;

fn main() {
    cesr_monitor::run(|| vec![property()])
}

// ---------------------------------------------------------------- comparing

#[derive(Clone, Debug, PartialEq)]
struct View {
    code: String,
    raw: Vec<u8>,
    size: u32,
    ondex: u32,
    qb64: Option<String>,
    qb64b: Option<Vec<u8>>,
    qb2: Option<Vec<u8>>,
    /// what the type itself says about its material
    more: Vec<String>,
}

// the same names on both sides: on a binding they are its own exported methods, on a core value the trait's
macro_rules! view {
    ($m:expr) => {{
        let m = &$m;
        View {
            code: m.code(), raw: m.raw(), size: m.size(), ondex: 0,
            qb64: m.qb64().ok(), qb64b: m.qb64b().ok(), qb2: m.qb2().ok(), more: vec![],
        }
    }};
    ($m:expr, $x:ident => $more:expr) => {{
        let $x = &$m;
        let mut v = view!(*$x);
        v.more = $more;
        v
    }};
}
macro_rules! iview {
    ($m:expr) => {{
        let m = &$m;
        View {
            code: m.code(), raw: m.raw(), size: m.index(), ondex: m.ondex(),
            qb64: m.qb64().ok(), qb64b: m.qb64b().ok(), qb2: m.qb2().ok(),
            more: vec![m.verfer().code(), m.verfer().qb64().unwrap_or_default()],
        }
    }};
}

fn engine(e: &Crash) -> bool {
    // only with the real wasm-bindgen: building the error object needs a JavaScript engine
    !cfg!(feature = "stand-in") && e.msg.contains("non-wasm targets")
}

/// compares the outcome of a binding with the outcome of the operation it wraps
fn same<T: PartialEq + Debug>(
    c: &mut Case,
    what: &str,
    input: impl Fn() -> String,
    core: impl FnOnce() -> Option<T>,
    bind: impl FnOnce() -> Option<T>,
) -> Option<T> {
    let core = match guard(core) {
        Ok(v) => v,
        Err(_) => {
            c.ev("core crashed (not this property)");
            return None;
        }
    };
    let bind = match guard(bind) {
        Ok(v) => v,
        Err(e) if engine(&e) => {
            c.ev(if core.is_some() { "out of sight: needs an engine" } else { "both compared: refused" });
            return core;
        }
        Err(e) => {
            let d = format!("the binding panicked at {} ({}) where the core gives {} on {}", e.loc, e.msg, clip(&format!("{core:?}")), clip(&input()));
            c.fail(&format!("crash:{what}"), d);
            return core;
        }
    };
    c.ev(if core.is_some() { "both compared: accepted" } else { "both compared: refused" });
    match (&core, &bind) {
        (Some(a), Some(b)) => {
            c.check(a == b, &format!("differs:{what}"), || {
                format!("core {} binding {} on {}", clip(&format!("{a:?}")), clip(&format!("{b:?}")), clip(&input()))
            });
        }
        (None, None) => {}
        (Some(a), None) => c.fail(&format!("refuses:{what}"), format!("core gives {} on {}", clip(&format!("{a:?}")), clip(&input()))),
        (None, Some(b)) => c.fail(&format!("accepts:{what}"), format!("the core refuses, the binding gives {} on {}", clip(&format!("{b:?}")), clip(&input()))),
    }
    core
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn op(s: &str) -> Option<String> {
    Some(s.to_string())
}
fn os(s: Option<&str>) -> Option<String> {
    s.map(|x| x.to_string())
}

/// parsed the way both sides will see it
fn text_of(j: &J) -> (String, Value) {
    let t = jsn::dump(j);
    let p: J = serde_json::from_str(&t).expect("json text");
    let v = Value::from(&p);
    (t, v)
}
fn val(t: &str) -> ValueWrapper {
    ValueWrapper::new(t)
}

fn strings(v: &[String]) -> Option<js_sys::Array> {
    #[cfg(feature = "stand-in")]
    {
        Some(v.iter().map(|s| wasm_bindgen::JsValue::from(s.as_str())).collect())
    }
    #[cfg(not(feature = "stand-in"))]
    {
        let _ = v;
        None
    }
}
/// in the fallback build arrays cannot be made
fn arrays() -> bool {
    cfg!(feature = "stand-in")
}

// ---------------------------------------------------------------- material of every type

/// optional arguments of the general constructors, valid or hostile
#[derive(Clone, Debug, Default)]
struct Args {
    code: Option<String>,
    raw: Option<Vec<u8>>,
    qb64b: Option<Vec<u8>>,
    qb64: Option<String>,
    qb2: Option<Vec<u8>>,
}

fn b2(t: &str) -> Vec<u8> {
    cesr::dec(t.as_bytes()).unwrap_or_default()
}

fn args(r: &mut Rng, codes: &[&str]) -> Args {
    let code = if codes.is_empty() || r.chance(1, 8) { r.pick(cesr::MATTER).code } else { r.pick(codes) };
    let n = cesr::mcode(code).and_then(|m| m.raw).unwrap_or_else(|| r.below(60));
    let mut raw = r.raw(n);
    if r.chance(1, 2) && matches!(code, "1AAA" | "1AAB" | "1AAI" | "1AAJ") {
        raw[0] = 2 + r.below(2) as u8;
    }
    let fin = cesr::var_code(code, n).unwrap_or(code);
    let text = match r.below(11) {
        0 => hostile_text(r),
        3 => {
            let t = cesr::matter_qb64(fin, &raw);
            frayed(r, &t)
        }
        1 => {
            let t = cesr::matter_qb64(fin, &raw);
            let k = r.below(t.len() + 1);
            t[..k].to_string()
        }
        2 => cesr::matter_qb64(fin, &raw) + "AAAA",
        _ => cesr::matter_qb64(fin, &raw),
    };
    let mut a = Args::default();
    let mut which = r.below(4);
    if r.chance(1, 20) {
        which = 4; // nothing at all
    }
    match which {
        0 => {
            a.raw = Some(match r.below(12) {
                0 => r.bytes(n.saturating_sub(1)),
                1 => r.bytes(n + 1),
                _ => raw.clone(),
            });
            a.code = match r.below(16) {
                0 | 1 => None,
                2 => Some(jsn::string(r)),
                3 => Some(frayed(r, code)),
                _ => Some(code.to_string()),
            };
        }
        1 => a.qb64 = Some(text.clone()),
        2 => {
            let mut b = text.clone().into_bytes();
            if r.chance(1, 10) && !b.is_empty() {
                // not even text
                let k = r.below(b.len());
                match r.below(3) {
                    0 => b[k] |= 0x80,
                    1 => b.insert(k, 0xff),
                    _ => b.push(0xc3),
                }
            }
            a.qb64b = Some(b)
        }
        3 => a.qb2 = Some(b2(&text)),
        _ => a.code = Some(code.to_string()),
    }
    if r.chance(1, 6) {
        // several sources at once: which one wins
        let other = cesr::matter_qb64(fin, &r.raw(n));
        match r.below(4) {
            0 => a.raw = Some(r.raw(n)),
            1 => a.qb64 = Some(other),
            2 => a.qb64b = Some(other.into_bytes()),
            _ => a.qb2 = Some(b2(&other)),
        }
        if r.bool() {
            a.code = Some(code.to_string());
        }
    }
    a
}

fn codes_of(name: &str) -> &'static [&'static str] {
    TYPES.iter().find(|t| t.name == name).map(|t| t.codes).unwrap_or(&[])
}

macro_rules! routes {
    ($c:expr, $name:literal, $a:expr, $view:ident, $core:ident, $wrap:ident) => {{
        let (c, a) = ($c, $a);
        let show = || format!("{a:?}");
        if let Some(t) = &a.qb64 {
            same(c, concat!($name, ".new_with_qb64"), show, || $core::new_with_qb64(t).ok().map(|x| $view!(x)), || $wrap::new_with_qb64(t).ok().map(|x| $view!(x)));
        }
        if let Some(t) = &a.qb64b {
            same(c, concat!($name, ".new_with_qb64b"), show, || $core::new_with_qb64b(t).ok().map(|x| $view!(x)), || $wrap::new_with_qb64b(t).ok().map(|x| $view!(x)));
        }
        if let Some(t) = &a.qb2 {
            same(c, concat!($name, ".new_with_qb2"), show, || $core::new_with_qb2(t).ok().map(|x| $view!(x)), || $wrap::new_with_qb2(t).ok().map(|x| $view!(x)));
        }
        if let Some(t) = &a.raw {
            same(c, concat!($name, ".new_with_raw"), show, || $core::new_with_raw(t, a.code.as_deref()).ok().map(|x| $view!(x)), || $wrap::new_with_raw(t, a.code.clone()).ok().map(|x| $view!(x)));
        }
    }};
}

macro_rules! dview { ($x:expr) => { view!($x, x => vec![x.dts().unwrap_or_default(), format!("{:?}", x.dtsb().ok())]) } }
macro_rules! bview { ($x:expr) => { view!($x, x => vec![x.bext().unwrap_or_default()]) } }
macro_rules! nview { ($x:expr) => { view!($x, x => vec![x.num().ok().map(|n| u128::from(n).to_string()).unwrap_or_default(), x.numh().unwrap_or_default()]) } }
macro_rules! qview { ($x:expr) => { view!($x, x => vec![x.sn().ok().map(|n| u128::from(n).to_string()).unwrap_or_default(), x.snh().unwrap_or_default()]) } }
macro_rules! gview { ($x:expr) => { view!($x, x => vec![x.verfer().code(), x.verfer().qb64().unwrap_or_default()]) } }
macro_rules! tview { ($x:expr) => { view!($x, x => vec![x.tier()]) } }

fn material(c: &mut Case) {
    for _ in 0..4 {
        let k = c.rng.below(11);
        let name = ["Verfer", "Diger", "Saider", "Prefixer", "Salter", "Signer", "Number", "Seqner", "Dater", "Bexter", "Cigar"][k];
        let mut a = args(&mut c.rng, codes_of(name));
        if name == "Bexter" && a.raw.is_some() && c.rng.bool() {
            let n = c.rng.below(40);
            let t: String = (0..n).map(|_| cesr::b64_char(c.rng.below(64) as u8)).collect();
            a.raw = Some(cesr::bext_raw(&t).0);
        }
        let (code, raw, qb64b, qb64, qb2) = (a.code.clone(), a.raw.clone(), a.qb64b.clone(), a.qb64.clone(), a.qb2.clone());
        let (dc, dr, db, dt, d2) = (code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref());
        let given = a.raw.is_some() || a.qb64.is_some() || a.qb64b.is_some() || a.qb2.is_some();
        c.seen(&(name, format!("{a:?}")));
        c.ev(name);
        if c.index < 8 {
            c.sample(|| format!("{name} {a:?}"));
        }
        macro_rules! general {
            ($view:ident, $n:literal, $core:expr, $wrap:expr) => {
                same(c, concat!($n, ".new"), || format!("{a:?}"), || $core.ok().map(|x| $view!(x)), || $wrap.ok().map(|x| $view!(x)))
            };
        }
        match name {
            "Verfer" => {
                routes!(&mut *c, "Verfer", &a, view, Verfer, VerferWrapper);
                general!(view, "Verfer", Verfer::new(dc, dr, db, dt, d2), VerferWrapper::new(code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Diger" => {
                routes!(&mut *c, "Diger", &a, view, Diger, DigerWrapper);
                let ser = if c.rng.chance(1, 3) { Some(rand_msg(&mut c.rng)) } else { None };
                general!(view, "Diger", Diger::new(ser.as_deref(), dc, dr, db, dt, d2), DigerWrapper::new(ser.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Saider" => {
                routes!(&mut *c, "Saider", &a, view, Saider, SaiderWrapper);
                general!(view, "Saider", Saider::new(None, None, None, None, dc, dr, db, dt, d2), SaiderWrapper::new(None, None, None, None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Prefixer" => {
                routes!(&mut *c, "Prefixer", &a, view, Prefixer, PrefixerWrapper);
                general!(view, "Prefixer", Prefixer::new(None, None, dc, dr, db, dt, d2), PrefixerWrapper::new(None, None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Salter" if given => {
                let tier = tier(&mut c.rng);
                let t = tier.as_deref();
                if let Some(x) = &qb64 {
                    same(c, "Salter.new_with_qb64", || format!("{a:?} {tier:?}"), || Salter::new_with_qb64(x, t).ok().map(|x| tview!(x)), || SalterWrapper::new_with_qb64(x, tier.clone()).ok().map(|x| tview!(x)));
                }
                if let Some(x) = &qb64b {
                    same(c, "Salter.new_with_qb64b", || format!("{a:?} {tier:?}"), || Salter::new_with_qb64b(x, t).ok().map(|x| tview!(x)), || SalterWrapper::new_with_qb64b(x, tier.clone()).ok().map(|x| tview!(x)));
                }
                if let Some(x) = &qb2 {
                    same(c, "Salter.new_with_qb2", || format!("{a:?} {tier:?}"), || Salter::new_with_qb2(x, t).ok().map(|x| tview!(x)), || SalterWrapper::new_with_qb2(x, tier.clone()).ok().map(|x| tview!(x)));
                }
                if let Some(x) = &raw {
                    same(c, "Salter.new_with_raw", || format!("{a:?} {tier:?}"), || Salter::new_with_raw(x, dc, t).ok().map(|x| tview!(x)), || SalterWrapper::new_with_raw(x, code.clone(), tier.clone()).ok().map(|x| tview!(x)));
                }
                general!(tview, "Salter", Salter::new(t, dc, dr, db, dt, d2), SalterWrapper::new(tier.clone(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Signer" if given => {
                let tr = flag(&mut c.rng);
                if let Some(x) = &qb64 {
                    same(c, "Signer.new_with_qb64", || format!("{a:?} {tr:?}"), || Signer::new_with_qb64(x, tr).ok().map(|x| gview!(x)), || SignerWrapper::new_with_qb64(x, tr).ok().map(|x| gview!(x)));
                }
                if let Some(x) = &qb64b {
                    same(c, "Signer.new_with_qb64b", || format!("{a:?} {tr:?}"), || Signer::new_with_qb64b(x, tr).ok().map(|x| gview!(x)), || SignerWrapper::new_with_qb64b(x, tr).ok().map(|x| gview!(x)));
                }
                if let Some(x) = &qb2 {
                    same(c, "Signer.new_with_qb2", || format!("{a:?} {tr:?}"), || Signer::new_with_qb2(x, tr).ok().map(|x| gview!(x)), || SignerWrapper::new_with_qb2(x, tr).ok().map(|x| gview!(x)));
                }
                if let Some(x) = &raw {
                    same(c, "Signer.new_with_raw", || format!("{a:?} {tr:?}"), || Signer::new_with_raw(x, tr, dc).ok().map(|x| gview!(x)), || SignerWrapper::new_with_raw(x, tr, code.clone()).ok().map(|x| gview!(x)));
                }
                general!(gview, "Signer", Signer::new(tr, dc, dr, db, dt, d2), SignerWrapper::new(tr, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Number" => {
                routes!(&mut *c, "Number", &a, nview, Number, NumberWrapper);
                if given {
                    general!(nview, "Number", Number::new(None, None, dc, dr, db, dt, d2), NumberWrapper::new(None, None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
                }
            }
            "Seqner" => {
                routes!(&mut *c, "Seqner", &a, qview, Seqner, SeqnerWrapper);
                general!(qview, "Seqner", Seqner::new(None, None, dc, dr, db, dt, d2), SeqnerWrapper::new(None, None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Dater" if given => {
                routes!(&mut *c, "Dater", &a, dview, Dater, DaterWrapper);
                general!(dview, "Dater", Dater::new(None, dc, dr, db, dt, d2), DaterWrapper::new(None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Bexter" => {
                routes!(&mut *c, "Bexter", &a, bview, Bexter, BexterWrapper);
                general!(bview, "Bexter", Bexter::new(None, dc, dr, db, dt, d2), BexterWrapper::new(None, code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            "Cigar" => {
                // with and without the key it belongs to
                let key = if c.rng.bool() { None } else { Some(*c.rng.pick(&KEY_CODES)).map(|k| key_text(&mut c.rng, k)) };
                let ck = || key.as_ref().and_then(|k| Verfer::new_with_qb64(k).ok());
                let wk = || key.as_ref().and_then(|k| VerferWrapper::new_with_qb64(k).ok());
                let show = || format!("{a:?} {key:?}");
                if let Some(x) = &qb64 {
                    same(c, "Cigar.new_with_qb64", show, || Cigar::new_with_qb64(x, ck().as_ref()).ok().map(|x| gview!(x)), || CigarWrapper::new_with_qb64(x, wk()).ok().map(|x| gview!(x)));
                }
                if let Some(x) = &qb64b {
                    same(c, "Cigar.new_with_qb64b", show, || Cigar::new_with_qb64b(x, ck().as_ref()).ok().map(|x| gview!(x)), || CigarWrapper::new_with_qb64b(x, wk()).ok().map(|x| gview!(x)));
                }
                if let Some(x) = &qb2 {
                    same(c, "Cigar.new_with_qb2", show, || Cigar::new_with_qb2(x, ck().as_ref()).ok().map(|x| gview!(x)), || CigarWrapper::new_with_qb2(x, wk()).ok().map(|x| gview!(x)));
                }
                if let Some(x) = &raw {
                    same(c, "Cigar.new_with_raw", show, || Cigar::new_with_raw(x, ck().as_ref(), dc).ok().map(|x| gview!(x)), || CigarWrapper::new_with_raw(x, wk(), code.clone()).ok().map(|x| gview!(x)));
                }
                general!(gview, "Cigar", Cigar::new(ck().as_ref(), dc, dr, db, dt, d2), CigarWrapper::new(wk(), code.clone(), raw.clone(), qb64b.clone(), qb64.clone(), qb2.clone()));
            }
            _ => {}
        }
    }
}

fn tier(r: &mut Rng) -> Option<String> {
    match r.below(6) {
        0 => None,
        1 => op("low"),
        2 => op("med"),
        3 => op("high"),
        4 => Some(frayed(r, "low")),
        _ => Some(jsn::string(r)),
    }
}
fn flag(r: &mut Rng) -> Option<bool> {
    *r.pick(&[None, Some(true), Some(false)])
}

fn indexed(c: &mut Case) {
    for _ in 0..4 {
        let code = if c.rng.chance(1, 10) { c.rng.pick(cesr::INDEXED).code } else { *c.rng.pick(SIGER_CODES) };
        let ic = cesr::icode(code).unwrap();
        let n = ic.raw.unwrap_or(64);
        let n = if c.rng.chance(1, 15) { n + 1 } else { n };
        let raw = c.rng.raw(n);
        let lim = |d: usize| if d == 0 { 1u64 } else { 64u64.pow(d as u32) };
        let pick = |d: usize, r: &mut Rng| match r.below(8) {
            0 => 0u32,
            1 => (lim(d) - 1) as u32,
            2 => lim(d) as u32,
            3 => r.u32(),
            4 => (1 << *r.pick(&[8, 12, 16, 24, 31])) + r.below(5) as u32,
            _ => (r.u64() % lim(d)) as u32,
        };
        let index = if c.rng.chance(1, 10) { None } else { Some(pick(ic.ms, &mut c.rng)) };
        let ondex = if c.rng.chance(1, 3) { None } else if c.rng.bool() { index } else { Some(pick(ic.os.max(1), &mut c.rng)) };
        let key = if c.rng.bool() { None } else { Some(*c.rng.pick(&KEY_CODES)).map(|k| key_text(&mut c.rng, k)) };
        let ck = || key.as_ref().and_then(|k| Verfer::new_with_qb64(k).ok());
        let wk = || key.as_ref().and_then(|k| VerferWrapper::new_with_qb64(k).ok());
        let mut cd = op(code);
        if c.rng.chance(1, 12) {
            cd = match c.rng.below(3) {
                0 => None,
                1 => Some(frayed(&mut c.rng, code)),
                _ => Some(jsn::string(&mut c.rng)),
            };
        }
        let what = format!("{cd:?} {index:?} {ondex:?} {key:?} {}", hex(&raw));
        c.seen(&what);
        c.ev("Siger");
        let made = same(c, "Siger.new_with_raw", || what.clone(),
            || Siger::new_with_raw(&raw, ck().as_ref(), index, ondex, cd.as_deref()).ok().map(|x| iview!(x)),
            || SigerWrapper::new_with_raw(&raw, wk(), index, ondex, cd.clone()).ok().map(|x| iview!(x)));
        same(c, "Siger.new", || what.clone(),
            || Siger::new(ck().as_ref(), index, ondex, cd.as_deref(), Some(&raw), None, None, None).ok().map(|x| iview!(x)),
            || SigerWrapper::new(wk(), index, ondex, cd.clone(), Some(raw.clone()), None, None, None).ok().map(|x| iview!(x)));
        let text = match made.and_then(|m| m.qb64) {
            Some(t) if !c.rng.chance(1, 4) => t,
            Some(t) if c.rng.bool() => frayed(&mut c.rng, &t),
            _ => hostile_text(&mut c.rng),
        };
        same(c, "Siger.new_with_qb64", || text.clone(), || Siger::new_with_qb64(&text, ck().as_ref()).ok().map(|x| iview!(x)), || SigerWrapper::new_with_qb64(&text, wk()).ok().map(|x| iview!(x)));
        same(c, "Siger.new_with_qb64b", || text.clone(), || Siger::new_with_qb64b(text.as_bytes(), ck().as_ref()).ok().map(|x| iview!(x)), || SigerWrapper::new_with_qb64b(text.as_bytes(), wk()).ok().map(|x| iview!(x)));
        let bin = b2(&text);
        same(c, "Siger.new_with_qb2", || text.clone(), || Siger::new_with_qb2(&bin, ck().as_ref()).ok().map(|x| iview!(x)), || SigerWrapper::new_with_qb2(&bin, wk()).ok().map(|x| iview!(x)));
        let k = c.rng.below(3);
        let (qb, qt, q2) = (if k == 0 { Some(text.clone().into_bytes()) } else { None }, if k == 1 { Some(text.clone()) } else { None }, if k == 2 { Some(bin) } else { None });
        same(c, "Siger.new(text)", || text.clone(),
            || Siger::new(ck().as_ref(), index, ondex, None, None, qb.as_deref(), qt.as_deref(), q2.as_deref()).ok().map(|x| iview!(x)),
            || SigerWrapper::new(wk(), index, ondex, None, None, qb.clone(), qt.clone(), q2.clone()).ok().map(|x| iview!(x)));
    }
}

// ---------------------------------------------------------------- numbers

fn u128s(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => 0,
        1 => u128::MAX,
        2 => 1u128 << r.below(128),
        3 => (1u128 << r.below(128)).wrapping_sub(1),
        4 => u64::MAX as u128 + r.below(3) as u128,
        5 => r.u64() as u128,
        6 => (r.u64() as u128) << 64,
        _ => r.u128() >> r.below(128),
    }
}

fn numbers(c: &mut Case) {
    for _ in 0..4 {
        let n = u128s(&mut c.rng);
        c.seen(&n);
        c.ev("128-bit integer");
        let got = u128::from(U128Wrapper::from(n));
        c.check(got == n, "differs:U128", || format!("{n:x} crossed the boundary as {got:x}"));
        same(c, "Number.new_with_num", || format!("{n}"), || Number::new_with_num(n).ok().map(|x| nview!(x)), || NumberWrapper::new_with_num(n.into()).ok().map(|x| nview!(x)));
        same(c, "Seqner.new_with_sn", || format!("{n}"), || Seqner::new_with_sn(n).ok().map(|x| qview!(x)), || SeqnerWrapper::new_with_sn(n.into()).ok().map(|x| qview!(x)));
        let code = if c.rng.chance(1, 3) { None } else { Some(*c.rng.pick(&["M", "0H", "N", "0A", "E"])) };
        let h = match c.rng.below(7) {
            4 => frayed(&mut c.rng, &format!("{n:x}")),
            0 => jsn::string(&mut c.rng),
            1 => format!("{n:032x}"),
            2 => format!("{n:X}"),
            3 => format!("0{n:x}"),
            _ => format!("{n:x}"),
        };
        same(c, "Number.new_with_numh", || h.clone(), || Number::new_with_numh(&h).ok().map(|x| nview!(x)), || NumberWrapper::new_with_numh(&h).ok().map(|x| nview!(x)));
        same(c, "Seqner.new_with_snh", || h.clone(), || Seqner::new_with_snh(&h).ok().map(|x| qview!(x)), || SeqnerWrapper::new_with_snh(&h).ok().map(|x| qview!(x)));
        let m = if c.rng.bool() { Some(n) } else { None };
        let mh = if m.is_none() || c.rng.chance(1, 4) { Some(h.as_str()) } else { None };
        same(c, "Number.new(value)", || format!("{m:?} {mh:?} {code:?}"),
            || Number::new(m, mh, code, None, None, None, None).ok().map(|x| nview!(x)),
            || NumberWrapper::new(m.map(Into::into), os(mh), os(code), None, None, None, None).ok().map(|x| nview!(x)));
        same(c, "Seqner.new(value)", || format!("{m:?} {mh:?} {code:?}"),
            || Seqner::new(m, mh, code, None, None, None, None).ok().map(|x| qview!(x)),
            || SeqnerWrapper::new(m.map(Into::into), os(mh), os(code), None, None, None, None).ok().map(|x| qview!(x)));
    }
}

// ---------------------------------------------------------------- text and dates

fn texts(c: &mut Case) {
    for _ in 0..4 {
        let t = match c.rng.below(5) {
            2 => {
                let n = c.rng.below(40);
                let t: String = (0..n).map(|_| cesr::b64_char(c.rng.below(64) as u8)).collect();
                frayed(&mut c.rng, &t)
            }
            0 => jsn::string(&mut c.rng),
            1 => hostile_text(&mut c.rng),
            _ => {
                let n = c.rng.below(80);
                (0..n).map(|_| cesr::b64_char(c.rng.below(64) as u8)).collect()
            }
        };
        c.seen(&t);
        c.ev("bext");
        same(c, "Bexter.new_with_bext", || t.clone(), || Bexter::new_with_bext(&t).ok().map(|x| bview!(x)), || BexterWrapper::new_with_bext(&t).ok().map(|x| bview!(x)));
        let code = if c.rng.bool() { None } else { Some(*c.rng.pick(&["4A", "5A", "6A", "7AAA", "8AAA", "9AAA", "4B", "E"])) };
        same(c, "Bexter.new(bext)", || format!("{t} {code:?}"), || Bexter::new(Some(&t), code, None, None, None, None).ok().map(|x| bview!(x)), || BexterWrapper::new(op(&t), os(code), None, None, None, None).ok().map(|x| bview!(x)));
        let r = &mut c.rng;
        let mut d = format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}{}{:02}:{:02}",
            r.below(10000), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60), r.below(1_000_000), if r.bool() { '+' } else { '-' }, r.below(15), r.below(60)
        );
        if r.chance(1, 5) {
            let k = r.below(d.len());
            let x = *r.pick(&["9", "Z", "c", ":", ".", " ", ""]);
            d.replace_range(k..k + 1, x);
        } else if r.chance(1, 5) {
            d = frayed(r, &d);
        }
        c.ev("date");
        let code = if c.rng.bool() { None } else { Some(*c.rng.pick(&["1AAG", "1AAG", "E"])) };
        same(c, "Dater.new_with_dts", || format!("{d} {code:?}"), || Dater::new_with_dts(&d, code).ok().map(|x| dview!(x)), || DaterWrapper::new_with_dts(&d, os(code)).ok().map(|x| dview!(x)));
        same(c, "Dater.new(dts)", || format!("{d} {code:?}"), || Dater::new(Some(&d), code, None, None, None, None).ok().map(|x| dview!(x)), || DaterWrapper::new(op(&d), os(code), None, None, None, None).ok().map(|x| dview!(x)));
    }
    // now: a value of its own on each side, both well formed
    let v = c.total("Dater.new(now)", String::new, || DaterWrapper::new(None, None, None, None, None, None).ok().and_then(|x| x.dts().ok())).flatten();
    c.check(v.as_ref().map(|s| s.len() == 32 && Dater::new_with_dts(s, None).is_ok()).unwrap_or(false), "differs:Dater.new(now)", || format!("{v:?}"));
}

// ---------------------------------------------------------------- keys and signatures

fn signing(c: &mut Case) {
    let suite = *c.rng.pick(&SUITES);
    let seed = rand_seed(&mut c.rng, suite);
    let tr = flag(&mut c.rng);
    let msg = rand_msg(&mut c.rng);
    c.seen(&(suite, seed.clone(), tr, msg.clone()));
    let core = Signer::new_with_raw(&seed, tr, Some(suite)).must("Signer::new_with_raw");
    let Some(bind) = c.total("SignerWrapper.new_with_raw", || format!("{suite} {seed:?}"), || SignerWrapper::new_with_raw(&seed, tr, op(suite)).ok()).flatten() else {
        c.fail("refuses:Signer.new_with_raw", format!("{suite} {seed:?}"));
        return;
    };
    c.ev("signer");
    let show = || format!("{suite} seed {} message {}", hex(&seed), clip(&hex(&msg)));
    same(c, "Signer.verfer", show, || Some(view!(core.verfer())), || Some(view!(bind.verfer())));
    // deterministic suites give equal signatures, the others signatures the core accepts
    let cig = c.total("Signer.sign_unindexed", show, || bind.sign_unindexed(&msg).ok()).flatten();
    let Some(cig) = cig else {
        c.fail("refuses:Signer.sign_unindexed", show());
        return;
    };
    c.check(cig.code() == sig_code(suite), "differs:Signer.sign_unindexed", || format!("code {} for {suite}", cig.code()));
    c.check(core.verfer().verify(&cig.raw(), &msg).unwrap_or(false), "differs:Signer.sign_unindexed", || format!("a signature the core does not verify: {}", show()));
    same(c, "Cigar.verfer", show, || Some(view!(core.verfer())), || Some(view!(cig.verfer())));
    if suite == "A" {
        same(c, "Signer.sign_unindexed", show, || core.sign_unindexed(&msg).ok().map(|x| gview!(x)), || bind.sign_unindexed(&msg).ok().map(|x| gview!(x)));
    }
    let only = c.rng.bool();
    let index = *c.rng.pick(&[0u32, 1, 63, 64, 65, 4095, 4096, (1 << 16) + 1, (1 << 24) + 64, 1 << 31, u32::MAX]);
    let ondex = match c.rng.below(4) {
        0 => None,
        1 => Some(index),
        _ => Some(*c.rng.pick(&[0u32, 1, 63, 64, 4095, 4096, 256, 1 << 16, (1 << 24) + 1])),
    };
    let what = || format!("{} only={only} index={index} ondex={ondex:?}", show());
    // raw signatures may differ between two calls; everything else may not
    macro_rules! sans { ($v:expr) => { $v.map(|s| { let v = iview!(s); (v.code, v.size, v.ondex, v.more, if suite == "A" { v.qb64 } else { None }) }) } }
    same(c, "Signer.sign_indexed", what, || sans!(core.sign_indexed(&msg, only, index, ondex).ok()), || sans!(bind.sign_indexed(&msg, only, index, ondex).ok()));
    if let Ok(Some(s)) = guard(|| bind.sign_indexed(&msg, only, index, ondex).ok()) {
        c.check(core.verfer().verify(&s.raw(), &msg).unwrap_or(false), "differs:Signer.sign_indexed", || format!("a signature the core does not verify: {}", what()));
        c.ev("indexed signature");
    }
    // verification: the right message, tampered ones, wrong keys, wrong lengths
    let mut sig = core.sign_unindexed(&msg).must("sign").raw();
    for _ in 0..5 {
        let mut m = msg.clone();
        let mut vk = core.verfer().qb64().must("qb64");
        match c.rng.below(7) {
            0 => {
                let i = c.rng.below(sig.len());
                sig[i] ^= 1 << c.rng.below(8);
            }
            1 if !m.is_empty() => {
                let i = c.rng.below(m.len());
                m[i] ^= 1 << c.rng.below(8);
            }
            2 => m.push(0),
            3 => {
                let n = c.rng.below(130);
                sig = c.rng.raw(n);
            }
            4 => {
                let k = *c.rng.pick(&KEY_CODES);
                vk = key_text(&mut c.rng, k);
            }
            5 => sig = core.sign_unindexed(&msg).must("sign").raw(),
            _ => {
                let o = *c.rng.pick(&SUITES);
                let s = rand_seed(&mut c.rng, o);
                let t = c.rng.bool();
                let x = Signer::new_with_raw(&s, Some(t), Some(o)).must("signer");
                vk = x.verfer().qb64().must("qb64");
                if c.rng.bool() {
                    sig = x.sign_unindexed(&msg).must("sign").raw();
                }
            }
        }
        let sg = sig.clone();
        let got = same(c, "Verfer.verify", || format!("{vk} sig {} msg {}", hex(&sg), clip(&hex(&m))),
            || Verfer::new_with_qb64(&vk).ok().and_then(|v| v.verify(&sg, &m).ok()),
            || VerferWrapper::new_with_qb64(&vk).ok().and_then(|v| v.verify(&sg, &m).ok()));
        c.ev(match got {
            Some(true) => "verified",
            Some(false) => "not verified",
            None => "verification refused",
        });
        if sig.len() != 64 {
            sig = core.sign_unindexed(&msg).must("sign").raw();
        }
    }
    // fresh keys: the shape that was asked for, and they sign
    if c.rng.chance(1, 4) {
        let code = if c.rng.chance(1, 4) { None } else { Some(suite) };
        let f = c.total("Signer.new(fresh)", show, || SignerWrapper::new(tr, os(code), None, None, None, None).ok()).flatten();
        match f {
            None => c.fail("refuses:Signer.new(fresh)", format!("{tr:?} {code:?}")),
            Some(f) => {
                let s = code.unwrap_or("A");
                c.check(f.code() == s && f.verfer().code() == verfer_code(s, tr.unwrap_or(true)), "differs:Signer.new(fresh)", || format!("{tr:?} {code:?} gives {} {}", f.code(), f.verfer().code()));
                let again = Signer::new_with_raw(&f.raw(), tr, code).must("Signer::new_with_raw");
                c.check(again.verfer().qb64().ok() == f.verfer().qb64().ok(), "differs:Signer.new(fresh)", || format!("another public key than the core derives from {}", hex(&f.raw())));
                c.ev("fresh key");
            }
        }
    }
}

fn stretching(c: &mut Case) {
    let raw = c.rng.raw(16);
    let set = c.rng.pick(&[None, Some("low"), Some("med"), Some("high")]).map(|s: &str| s.to_string());
    let path = match c.rng.below(6) {
        0 => None,
        1 => op(""),
        2 => Some(frayed(&mut c.rng, "/m/0")),
        _ => Some(jsn::string(&mut c.rng)),
    };
    let size = *c.rng.pick(&[None, Some(32usize), Some(16), Some(4), Some(64), Some(33), Some(0), Some(3), Some(256), Some(300), Some(65_536 + 32)]);
    // the real cost of a tier is paid now and then
    let (tr, temp) = if c.index % 60 == 3 { (op("low"), *c.rng.pick(&[None, Some(false)])) } else if c.rng.chance(1, 3) {
        // cheap at any salt only when the tier asked for is the one used
        (op(*c.rng.pick(&["min", "min", "nope", "", "Low", "low ", " high", "MED"])), *c.rng.pick(&[None, Some(false)]))
    } else {
        (tier(&mut c.rng), Some(true))
    };
    let core = Salter::new_with_raw(&raw, None, set.as_deref()).must("Salter::new_with_raw");
    let bind = match c.total("SalterWrapper.new_with_raw", || format!("{raw:?}"), || SalterWrapper::new_with_raw(&raw, None, set.clone()).ok()).flatten() {
        Some(b) => b,
        None => return c.fail("refuses:Salter.new_with_raw", format!("{raw:?} {set:?}")),
    };
    let show = format!("salt {} set {set:?} size {size:?} path {path:?} tier {tr:?} temp {temp:?}", hex(&raw));
    c.seen(&show);
    c.ev("stretch");
    same(c, "Salter.tier", || show.clone(), || Some(core.tier()), || Some(bind.tier()));
    same(c, "Salter.stretch", || show.clone(), || core.stretch(size, path.as_deref(), tr.as_deref(), temp).ok(), || bind.stretch(size, path.clone(), tr.clone(), temp).ok());
    let code = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(&["A", "J", "Q", "E"])) };
    let t = flag(&mut c.rng);
    let what = format!("{show} code {code:?} transferable {t:?}");
    same(c, "Salter.signer", || what.clone(), || core.signer(code, t, path.as_deref(), tr.as_deref(), temp).ok().map(|x| gview!(x)), || bind.signer(os(code), t, path.clone(), tr.clone(), temp).ok().map(|x| gview!(x)));
    if temp == Some(true) || tr.as_deref() != Some("low") {
        let count = *c.rng.pick(&[None, Some(0usize), Some(1), Some(2), Some(3), Some(5)]);
        let start = *c.rng.pick(&[None, Some(0usize), Some(1), Some(9), Some(255), Some(256), Some(4096), Some(65_535), Some(65_536), Some(1 << 32), Some(u32::MAX as usize), Some(i64::MAX as usize)]);
        let what = format!("{what} count {count:?} start {start:?}");
        same(c, "Salter.signers", || what.clone(),
            || core.signers(count, start, path.as_deref(), code, t, tr.as_deref(), temp).ok().map(|v| (v.len(), v.is_empty(), v.iter().map(|x| gview!(x)).collect::<Vec<_>>(), true)),
            || bind.signers(count, start, path.clone(), os(code), t, tr.clone(), temp).ok().map(|v| {
                (v.len(), v.is_empty(), (0..v.len()).filter_map(|i| v.get(i)).map(|x| gview!(x)).collect::<Vec<_>>(), v.get(v.len()).is_none())
            }));
        c.ev("signers");
    }
    if c.rng.chance(1, 10) {
        let f = c.total("Salter.new_with_defaults", || format!("{set:?}"), || SalterWrapper::new_with_defaults(set.clone()).ok().map(|s| (s.code(), s.raw().len(), s.tier()))).flatten();
        let want = Salter::new_with_defaults(set.as_deref()).ok().map(|s| (s.code(), s.raw().len(), s.tier()));
        c.eq("differs:Salter.new_with_defaults", f, want);
    }
}

// ---------------------------------------------------------------- digests and identifiers

fn digests(c: &mut Case) {
    let ser = rand_msg(&mut c.rng);
    let code = *c.rng.pick(&DIGEST_CODES);
    let cd = match c.rng.below(12) {
        2 => Some(*c.rng.pick(&["", "e", "E ", "0d"])),
        0 => None,
        1 => Some(c.rng.pick(cesr::MATTER).code),
        _ => Some(code),
    };
    c.seen(&(ser.clone(), cd));
    c.ev("digest");
    let show = || format!("{cd:?} {}", clip(&hex(&ser)));
    let d = same(c, "Diger.new_with_ser", show, || Diger::new_with_ser(&ser, cd).ok().map(|x| view!(x)), || DigerWrapper::new_with_ser(&ser, os(cd)).ok().map(|x| view!(x)));
    let Some(text) = d.and_then(|v| v.qb64) else { return };
    let mut other = ser.clone();
    if c.rng.bool() {
        if other.is_empty() || c.rng.bool() {
            other.push(1);
        } else {
            let i = c.rng.below(other.len());
            other[i] ^= 1 << c.rng.below(8);
        }
    }
    let (a, b) = (Diger::new_with_qb64(&text).must("diger"), DigerWrapper::new_with_qb64(&text));
    let b = match b {
        Ok(b) => b,
        Err(_) => return c.fail("refuses:Diger.new_with_qb64", text),
    };
    same(c, "Diger.verify", || format!("{text} {}", clip(&hex(&other))), || a.verify(&other).ok(), || b.verify(&other).ok());
    let dc2 = *c.rng.pick(&DIGEST_CODES);
    let dig2 = match c.rng.below(10) {
        0 => hostile_text(&mut c.rng),
        3 => frayed(&mut c.rng, &text),
        4 => format!("{text}{text}"),
        1 => text.clone(),
        2 => cesr::matter_qb64("B", &c.rng.raw(32)),
        _ => Diger::new_with_ser(if c.rng.bool() { &other } else { &ser }, Some(dc2)).must("diger").qb64().must("qb64"),
    };
    let got = same(c, "Diger.compare_dig", || format!("{text} {dig2} {}", clip(&hex(&ser))), || a.compare(&ser, Some(dig2.as_bytes()), None).ok(), || b.compare_dig(&ser, dig2.as_bytes()).ok());
    if got == Some(true) {
        c.ev("digests compared equal");
    }
    same(c, "Diger.compare_diger", || format!("{text} {dig2} {}", clip(&hex(&ser))),
        || Diger::new_with_qb64(&dig2).ok().and_then(|d| a.compare(&ser, None, Some(&d)).ok()),
        || DigerWrapper::new_with_qb64(&dig2).ok().and_then(|d| b.compare_diger(&ser, &d).ok()));
}

fn saids(c: &mut Case) {
    let doc = document(&mut c.rng);
    let code = *c.rng.pick(&DIGEST_CODES);
    let cd = if c.rng.chance(1, 8) { *c.rng.pick(&[None, None, Some("B"), Some(""), Some("e"), Some("E ")]) } else { Some(code) };
    let label = if doc.label == "d" && c.rng.bool() { None } else { Some(doc.label.as_str()) };
    let kind = match c.rng.below(8) {
        0 => Some("JSON"),
        1 => Some("CBOR"),
        2 if c.rng.chance(1, 4) => Some(*c.rng.pick(&["json", "Json", "JSON ", " JSON", ""])),
        _ => None,
    };
    let (text, v) = text_of(&J::Object(doc.map.clone()));
    let ig: Vec<&str> = doc.ignore.iter().map(|s| s.as_str()).collect();
    let (ci, wi): (Option<&[&str]>, _) = if (ig.is_empty() && c.rng.bool()) || !arrays() { (None, None) } else { (Some(&ig), Some(&doc.ignore)) };
    let wa = || wi.and_then(|x| strings(x));
    let show = || format!("{} label {label:?} code {cd:?} kind {kind:?} ignore {ci:?}", clip(&text));
    c.seen(&(text.clone(), cd, label.map(|s| s.to_string())));
    c.ev("document");
    if ci.is_some() {
        c.ev("list argument");
    }
    let got = same(c, "Saider.saidify", show,
        || Saider::saidify(&v, cd, kind, label, ci).ok().map(|(s, d)| (view!(s), d.to_json().unwrap_or_default())),
        || SaiderWrapper::saidify(val(&text), os(cd), os(kind), os(label), wa()).ok().map(|r| (view!(r.saider()), r.value())));
    // with the identifier in place, or something close to it
    let (mut text2, mut v2) = match &got {
        Some((_, t)) if !c.rng.chance(1, 4) => {
            let p: J = serde_json::from_str(t).expect("core json");
            text_of(&p)
        }
        _ => (text.clone(), Value::from(&serde_json::from_str::<J>(&text).unwrap())),
    };
    if c.rng.chance(1, 4) {
        if let Ok(J::Object(mut m)) = serde_json::from_str(&text2) {
            jsn::mutate_map(&mut c.rng, &mut m, &[]);
            (text2, v2) = text_of(&J::Object(m));
        }
    }
    let said = match got {
        Some((s, _)) => s.qb64.unwrap_or_default(),
        None => embed(&doc, code).0,
    };
    let kinded = kind != Some("CBOR");
    let (pf, vs) = (flag(&mut c.rng), flag(&mut c.rng));
    let ok = same(c, "Saider.verify", || format!("{said} prefixed {pf:?} versioned {vs:?} on {} {}", clip(&text2), show()),
        || Saider::new_with_qb64(&said).ok().and_then(|s| s.verify(&v2, pf, vs, kind, label, ci).ok()),
        || SaiderWrapper::new_with_qb64(&said).ok().and_then(|s| s.verify(val(&text2), pf, vs, os(kind), os(label), wa()).ok()));
    if ok == Some(true) && kinded {
        c.ev("identifier verified");
    }
    let cd2 = if c.rng.bool() { cd } else { None };
    same(c, "Saider.new_with_sad", || format!("{} {}", clip(&text2), show()),
        || Saider::new_with_sad(&v2, label, kind, ci, cd2).ok().map(|x| view!(x)),
        || SaiderWrapper::new_with_sad(val(&text2), os(label), os(kind), wa(), os(cd2)).ok().map(|x| view!(x)));
    let sq = if c.rng.chance(1, 3) { Some(said.clone()) } else { None };
    same(c, "Saider.new(sad)", || format!("{} {} {sq:?}", clip(&text2), show()),
        || Saider::new(Some(&v2), label, kind, ci, cd2, None, None, sq.as_deref(), None).ok().map(|x| view!(x)),
        || SaiderWrapper::new(Some(val(&text2)), os(label), os(kind), wa(), os(cd2), None, None, sq.clone(), None).ok().map(|x| view!(x)));
}

fn prefixes(c: &mut Case) {
    let mut codes: Vec<&'static str> = KEY_CODES.to_vec();
    codes.extend(DIGEST_CODES);
    let code = *c.rng.pick(&codes);
    let mut m = inception(&mut c.rng, code);
    if c.rng.chance(1, 4) {
        jsn::mutate_map(&mut c.rng, &mut m, &[]);
    }
    let (text, v) = text_of(&J::Object(m.clone()));
    let cd = if c.rng.chance(1, 4) { *c.rng.pick(&[None, None, Some(""), Some("A")]) } else { Some(code) };
    let allows: Option<Vec<String>> = if c.rng.bool() || !arrays() {
        None
    } else {
        let n = c.rng.below(4);
        let mut a: Vec<String> = (0..n).map(|_| c.rng.pick(&codes).to_string()).collect();
        if c.rng.bool() {
            a.push(code.to_string());
        }
        Some(a)
    };
    let al: Option<Vec<&str>> = allows.as_ref().map(|a| a.iter().map(|s| s.as_str()).collect());
    let wa = || allows.as_ref().and_then(|a| strings(a));
    c.seen(&(text.clone(), cd, allows.clone()));
    c.ev("inception");
    if al.is_some() {
        c.ev("list argument");
    }
    let show = || format!("{} code {cd:?} allows {allows:?}", clip(&text));
    let got = same(c, "Prefixer.new_with_ked", show, || Prefixer::new_with_ked(&v, al.as_deref(), cd).ok().map(|x| view!(x)), || PrefixerWrapper::new_with_ked(val(&text), wa(), os(cd)).ok().map(|x| view!(x)));
    let pre = match &got {
        Some(g) if !c.rng.chance(1, 5) => g.qb64.clone().unwrap_or_default(),
        _ => {
            let k = *c.rng.pick(&codes);
            key_text(&mut c.rng, k)
        }
    };
    same(c, "Prefixer.new(ked)", || format!("{} {pre}", show()), || Prefixer::new(Some(&v), al.as_deref(), cd, None, None, None, None).ok().map(|x| view!(x)), || PrefixerWrapper::new(Some(val(&text)), wa(), os(cd), None, None, None, None).ok().map(|x| view!(x)));
    same(c, "Prefixer.new(ked, qb64)", || format!("{} {pre}", show()), || Prefixer::new(Some(&v), al.as_deref(), cd, None, None, Some(&pre), None).ok().map(|x| view!(x)), || PrefixerWrapper::new(Some(val(&text)), wa(), os(cd), None, None, op(&pre), None).ok().map(|x| view!(x)));
    if c.rng.bool() && m.contains_key("i") {
        m["i"] = json!(if c.rng.chance(1, 5) { jsn::string(&mut c.rng) } else { pre.clone() });
    }
    let (text, v) = text_of(&J::Object(m));
    let pf = flag(&mut c.rng);
    let ok = same(c, "Prefixer.verify", || format!("{pre} prefixed {pf:?} {}", clip(&text)),
        || Prefixer::new_with_qb64(&pre).ok().and_then(|p| p.verify(&v, pf).ok()),
        || PrefixerWrapper::new_with_qb64(&pre).ok().and_then(|p| p.verify(val(&text), pf).ok()));
    if ok == Some(true) {
        c.ev("prefix verified");
    }
}

// ---------------------------------------------------------------- thresholds

#[derive(Debug, PartialEq, Clone)]
struct TView {
    thold: Option<String>,
    weighted: bool,
    size: u32,
    num: Option<Option<u32>>,
    number: Option<View>,
    bexter: Option<View>,
    limen: Option<Vec<u8>>,
    sith: Option<String>,
    json: Option<String>,
    satisfied: Vec<Option<bool>>,
}

fn core_t(t: &Tholder, sets: &[Vec<u32>]) -> TView {
    TView {
        thold: t.thold().to_json().ok(),
        weighted: t.weighted(),
        size: t.size(),
        num: t.num().ok(),
        number: t.number().map(|x| nview!(x)),
        bexter: t.bexter().map(|x| bview!(x)),
        limen: t.limen().ok(),
        sith: t.sith().ok().and_then(|s| s.to_json().ok()),
        json: t.to_json().ok(),
        satisfied: sets.iter().map(|s| t.satisfy(s).ok()).collect(),
    }
}
fn bind_t(t: &TholderWrapper, sets: &[Vec<u32>]) -> TView {
    TView {
        thold: Some(t.thold().value()),
        weighted: t.weighted(),
        size: t.size(),
        num: t.num().ok(),
        number: t.number().map(|x| nview!(x)),
        bexter: t.bexter().map(|x| bview!(x)),
        limen: t.limen().ok(),
        sith: t.sith().ok().map(|s| s.value()),
        json: t.to_json().ok(),
        satisfied: sets.iter().map(|s| t.satisfy(s).ok()).collect(),
    }
}

fn sets(r: &mut Rng, size: u32) -> Vec<Vec<u32>> {
    (0..6)
        .map(|k| match k {
            0 => (0..size.min(200)).collect(),
            1 => vec![],
            2 => (0..r.below(8)).map(|_| r.below(size.min(60) as usize + 2) as u32).collect(),
            3 if r.chance(1, 3) => {
                // far beyond the list: nobody has these
                let far = *r.pick(&[1u32 << 8, 1 << 16, 1 << 24, 1 << 31]);
                (0..size.min(200)).map(|i| i.wrapping_add(far)).collect()
            }
            4 if r.chance(1, 4) => vec![u32::MAX - r.below(3) as u32],
            _ => {
                let mut v: Vec<u32> = (0..size.min(200)).filter(|_| r.chance(2, 3)).collect();
                if r.chance(1, 3) {
                    r.shuffle(&mut v);
                }
                v
            }
        })
        .collect()
}

fn thresholds(c: &mut Case) {
    let sith = match c.rng.below(6) {
        0 => json!(u128s(&mut c.rng) as u32 >> c.rng.below(32)),
        1 => {
            let t = format!("{:x}", u128s(&mut c.rng) as u32 >> c.rng.below(32));
            json!(if c.rng.chance(1, 4) { frayed(&mut c.rng, &t) } else { t })
        }
        2 => wild(&mut c.rng),
        3 => {
            let cl = clauses(&mut c.rng);
            canonical(&cl)
        }
        4 => {
            let cl = clauses(&mut c.rng);
            let n = nested(&mut c.rng, &cl);
            json!(jsn::dump(&n))
        }
        _ => {
            let cl = clauses(&mut c.rng);
            let n = nested(&mut c.rng, &cl);
            match n.as_array() {
                Some(a) if a.len() == 1 && c.rng.bool() => a[0].clone(),
                _ => n,
            }
        }
    };
    let (text, v) = text_of(&sith);
    c.seen(&text);
    let size = guard(|| Tholder::new_with_sith(&v).ok().map(|t| t.size())).ok().flatten().unwrap_or(0);
    let ss = sets(&mut c.rng, size);
    let show = || format!("{} sets {ss:?}", clip(&text));
    let got = same(c, "Tholder.new_with_sith", show, || Tholder::new_with_sith(&v).ok().map(|t| core_t(&t, &ss)), || TholderWrapper::new_with_sith(val(&text)).ok().map(|t| bind_t(&t, &ss)));
    same(c, "Tholder.new(sith)", show, || Tholder::new(None, None, Some(&v)).ok().map(|t| core_t(&t, &ss)), || TholderWrapper::new(None, None, Some(val(&text))).ok().map(|t| bind_t(&t, &ss)));
    let Some(got) = got else {
        c.ev("threshold refused");
        return;
    };
    c.ev(if got.weighted { "weighted threshold" } else { "numeric threshold" });
    for s in got.satisfied.iter().flatten() {
        c.ev(if *s { "satisfied" } else { "not satisfied" });
    }
    let mut limen = got.limen.clone().unwrap_or_default();
    if c.rng.chance(1, 6) {
        limen = hostile_text(&mut c.rng).into_bytes();
    } else if c.rng.chance(1, 6) {
        if let Ok(t) = String::from_utf8(limen.clone()) {
            limen = frayed(&mut c.rng, &t).into_bytes();
        }
    }
    same(c, "Tholder.new_with_limen", || String::from_utf8_lossy(&limen).into(), || Tholder::new_with_limen(&limen).ok().map(|t| core_t(&t, &ss)), || TholderWrapper::new_with_limen(&limen).ok().map(|t| bind_t(&t, &ss)));
    same(c, "Tholder.new(limen)", || String::from_utf8_lossy(&limen).into(), || Tholder::new(None, Some(&limen), None).ok().map(|t| core_t(&t, &ss)), || TholderWrapper::new(None, Some(limen.clone()), None).ok().map(|t| bind_t(&t, &ss)));
    let thold = if c.rng.chance(1, 6) { wild(&mut c.rng) } else { serde_json::from_str(&got.thold.clone().unwrap_or("1".into())).unwrap_or(json!(1)) };
    let (tt, tv) = text_of(&thold);
    same(c, "Tholder.new_with_thold", || clip(&tt), || Tholder::new_with_thold(&tv).ok().map(|t| core_t(&t, &ss)), || TholderWrapper::new_with_thold(val(&tt)).ok().map(|t| bind_t(&t, &ss)));
    same(c, "Tholder.new(thold)", || clip(&tt), || Tholder::new(Some(&tv), None, None).ok().map(|t| core_t(&t, &ss)), || TholderWrapper::new(Some(val(&tt)), None, None).ok().map(|t| bind_t(&t, &ss)));
}

// ---------------------------------------------------------------- events

type Fields = Vec<(&'static str, Option<String>)>;

fn core_e(s: &Serder) -> Fields {
    let ss: Vec<Vec<u32>> = vec![vec![], vec![0], vec![0, 1], (0..12).collect()];
    vec![
        ("code", Some(s.code())),
        ("raw", Some(hex(&s.raw()))),
        ("ked", s.ked().to_json().ok()),
        ("ident", Some(s.ident())),
        ("kind", Some(s.kind())),
        ("size", Some(s.size().to_string())),
        ("saider", Some(format!("{:?}", view!(s.saider())))),
        ("tholder", s.tholder().ok().map(|t| format!("{:?}", t.map(|t| core_t(&t, &ss))))),
        ("ntholder", s.ntholder().ok().map(|t| format!("{:?}", t.map(|t| core_t(&t, &ss))))),
        ("sner", s.sner().ok().map(|t| format!("{:?}", nview!(t)))),
        ("sn", s.sn().ok().map(|t| t.to_string())),
        ("fner", s.fner().ok().map(|t| format!("{:?}", t.map(|t| nview!(t))))),
        ("fn", s._fn().ok().map(|t| t.to_string())),
    ]
}
fn bind_e(s: &SerderWrapper) -> Fields {
    let ss: Vec<Vec<u32>> = vec![vec![], vec![0], vec![0, 1], (0..12).collect()];
    let _ = s.version();
    vec![
        ("code", Some(s.code())),
        ("raw", Some(hex(&s.raw()))),
        ("ked", Some(s.ked().value())),
        ("ident", Some(s.ident())),
        ("kind", Some(s.kind())),
        ("size", Some(s.size().to_string())),
        ("saider", Some(format!("{:?}", view!(s.saider())))),
        ("tholder", s.tholder().ok().map(|t| format!("{:?}", t.map(|t| bind_t(&t, &ss))))),
        ("ntholder", s.ntholder().ok().map(|t| format!("{:?}", t.map(|t| bind_t(&t, &ss))))),
        ("sner", s.sner().ok().map(|t| format!("{:?}", nview!(t)))),
        ("sn", s.sn().ok().map(|t| u128::from(t).to_string())),
        ("fner", s.fner().ok().map(|t| format!("{:?}", t.map(|t| nview!(t))))),
        ("fn", s._fn().ok().map(|t| u128::from(t).to_string())),
    ]
}
fn differing(a: &Fields, b: &Fields) -> String {
    a.iter().zip(b).filter(|(x, y)| x != y).map(|(x, _)| x.0).collect::<Vec<_>>().join("+")
}

fn same_event(c: &mut Case, what: &str, input: impl Fn() -> String, core: impl FnOnce() -> Option<Serder>, bind: impl FnOnce() -> Option<SerderWrapper>) {
    let Ok(core) = guard(core) else {
        c.ev("core crashed (not this property)");
        return;
    };
    let bind = match guard(bind) {
        Ok(b) => b,
        Err(e) if engine(&e) => None,
        Err(e) => return c.fail(&format!("crash:{what}"), format!("{} ({}) on {}", e.loc, e.msg, clip(&input()))),
    };
    let (core, bind) = match (core, bind) {
        (Some(a), Some(b)) => (a, b),
        (None, None) => return c.ev("both compared: refused"),
        (a, _) => return c.fail(&format!("{}:{what}", if a.is_some() { "refuses" } else { "accepts" }), clip(&input())),
    };
    c.ev("both compared: accepted");
    let Ok(a) = guard(|| core_e(&core)) else {
        c.ev("core crashed (not this property)");
        return;
    };
    match guard(|| bind_e(&bind)) {
        Ok(b) => {
            c.evn("event fields compared", b.len() as u64);
            c.check(a == b, &format!("differs:{what}:{}", differing(&a, &b)), || format!("core {} binding {} on {}", clip(&format!("{a:?}")), clip(&format!("{b:?}")), clip(&input())));
        }
        Err(e) if engine(&e) => {}
        Err(e) => c.fail(&format!("crash:{what}.fields"), format!("{} ({}) on {}", e.loc, e.msg, clip(&input()))),
    }
    lists(c, what, &core, &bind, &input);
}

#[cfg(feature = "stand-in")]
fn lists(c: &mut Case, what: &str, core: &Serder, bind: &SerderWrapper, input: &dyn Fn() -> String) {
    macro_rules! list {
        ($f:ident, $ty:ty) => {
            let n = same(c, &format!("{what}.{}", stringify!($f)), || input(),
                || core.$f().ok().map(|v| v.iter().map(|x| Some(view!(*x))).collect::<Vec<_>>()),
                || bind.$f().ok().map(|a| a.iter().map(|x| x.downcast::<$ty>().map(|x| view!(*x))).collect::<Vec<_>>()));
            c.evn("list members compared", n.map(|v| v.len()).unwrap_or(0) as u64);
        };
    }
    list!(verfers, VerferWrapper);
    list!(digers, DigerWrapper);
    list!(werfers, VerferWrapper);
}
#[cfg(not(feature = "stand-in"))]
fn lists(_: &mut Case, _: &str, _: &Serder, _: &SerderWrapper, _: &dyn Fn() -> String) {}

fn events(c: &mut Case) {
    let code = *c.rng.pick(&DIGEST_CODES);
    let m: Map<String, J> = match c.rng.below(8) {
        0 => event(&mut c.rng, "KERI", code),
        1 => event(&mut c.rng, "ACDC", code),
        _ => {
            let mut m = key_event(&mut c.rng).map;
            if !m.contains_key("v") {
                m = jsn::insert_at(&m, 0, "v", json!("KERI10JSON000000_"));
            }
            if c.rng.chance(1, 25) {
                // a long one
                let n = *c.rng.pick(&[5_000usize, 9_000, 17_000, 66_000]) + c.rng.below(1000);
                m.insert("a".into(), json!("long ".repeat(n / 5)));
                c.ev("long event");
            }
            // sized and identified
            match (cesr_monitor::jsn::sized(&m), c.rng.chance(1, 12)) {
                (Some(m), false) if m.get("d").is_some() => match jsn::derive(&m, code, &["d"], &[]) {
                    Some((raw, mut m)) => {
                        m["d"] = json!(cesr::matter_qb64(code, &raw));
                        m
                    }
                    None => m,
                },
                _ => m,
            }
        }
    };
    let mut m = m;
    if c.rng.chance(1, 6) {
        jsn::mutate_map(&mut c.rng, &mut m, &[]);
    }
    let (text, v) = text_of(&J::Object(m));
    let cd = match c.rng.below(12) {
        2 => Some(*c.rng.pick(&["", "e", "E ", "0d"])),
        0 => None,
        1 => Some(*c.rng.pick(&DIGEST_CODES)),
        _ => Some(code),
    };
    let kind = *c.rng.pick(&[None, None, Some("JSON"), Some("CBOR"), Some(""), Some("json"), Some("JSON "), Some("Json")]);
    c.seen(&(text.clone(), cd, kind));
    c.ev("event");
    c.sample(|| text.clone());
    let show = || format!("{} code {cd:?} kind {kind:?}", clip(&text));
    same_event(c, "Serder.new_with_ked", show, || Serder::new_with_ked(&v, cd, kind).ok(), || SerderWrapper::new_with_ked(val(&text), os(cd), os(kind)).ok());
    let mut raw = text.clone().into_bytes();
    match c.rng.below(6) {
        0 => raw.extend_from_slice(b"-AABAA"),
        1 => {
            let k = c.rng.below(raw.len() + 1);
            raw.truncate(k);
        }
        2 => {
            let k = c.rng.below(raw.len());
            raw[k] ^= 1 << c.rng.below(8);
        }
        _ => {}
    }
    match c.rng.below(4) {
        0 => same_event(c, "Serder.new(ked)", show, || Serder::new(cd, None, kind, Some(&v), None).ok(), || SerderWrapper::new(os(cd), None, os(kind), Some(val(&text)), None).ok()),
        1 => {
            let k2 = kind;
            same_event(c, "Serder.new(sad)", show,
                || Serder::new_with_ked(&v, cd, None).ok().and_then(|s| Serder::new(cd, None, k2, None, Some(&s)).ok()),
                || SerderWrapper::new_with_ked(val(&text), os(cd), None).ok().and_then(|s| SerderWrapper::new(os(cd), None, os(k2), None, Some(s)).ok()))
        }
        2 => same_event(c, "Serder.new(nothing)", show, || Serder::new(cd, None, kind, None, None).ok(), || SerderWrapper::new(os(cd), None, os(kind), None, None).ok()),
        _ => {}
    }
    same_event(c, "Serder.new(raw)", || String::from_utf8_lossy(&raw).into(), || Serder::new(cd, Some(&raw), kind, None, None).ok(), || SerderWrapper::new(os(cd), Some(raw.clone()), os(kind), None, None).ok());
}

// ---------------------------------------------------------------- code tables

fn tables(c: &mut Case) {
    use w::{CesrideIndexerCodex as I, CesrideMatterCodex as M};
    macro_rules! t { ($f:ident, $e:ident, $($n:ident $want:literal),* $(,)?) => { $(
        let got = c.total("code table", || stringify!($n).to_string(), || (w::$f($e::$n), $e::$n.code().to_string()));
        c.seen(&(stringify!($e), stringify!($n)));
        c.ev("code");
        if let Some((a, b)) = got {
            c.check(a == $want && b == $want, concat!("differs:", stringify!($f)), || format!("{} is {a:?}/{b:?} and not {:?}", stringify!($n), $want));
        }
    )* } }
    t!(matter_codex_code, M,
        Ed25519Seed "A", Ed25519N "B", X25519 "C", Ed25519 "D", Blake3_256 "E", Blake2b_256 "F", Blake2s_256 "G",
        SHA3_256 "H", SHA2_256 "I", ECDSA_256k1_Seed "J", Ed448_Seed "K", X448 "L", Short "M", Big "N",
        X25519_Private "O", X25519_Cipher_Seed "P", Salt_128 "0A", Ed25519_Sig "0B", ECDSA_256k1_Sig "0C",
        Blake3_512 "0D", Blake2b_512 "0E", SHA3_512 "0F", SHA2_512 "0G", Long "0H", ECDSA_256k1N "1AAA",
        ECDSA_256k1 "1AAB", Ed448N "1AAC", Ed448 "1AAD", Ed448_Sig "1AAE", Tern "1AAF", DateTime "1AAG",
        X25519_Cipher_Salt "1AAH", TBD1 "2AAA", TBD2 "3AAA", StrB64_L0 "4A", StrB64_L1 "5A", StrB64_L2 "6A",
        StrB64_Big_L0 "7AAA", StrB64_Big_L1 "8AAA", StrB64_Big_L2 "9AAA", Bytes_L0 "4B", Bytes_L1 "5B",
        Bytes_L2 "6B", Bytes_Big_L0 "7AAB", Bytes_Big_L1 "8AAB", Bytes_Big_L2 "9AAB");
    t!(indexer_codex_code, I,
        Ed25519 "A", Ed25519_Crt "B", ECDSA_256k1 "C", ECDSA_256k1_Crt "D", Ed448 "0A", Ed448_Crt "0B",
        Ed25519_Big "2A", Ed25519_Big_Crt "2B", ECDSA_256k1_Big "2C", ECDSA_256k1_Big_Crt "2D", Ed448_Big "3A",
        Ed448_Big_Crt "3B", TBD0 "0z", TBD1 "1z", TBD4 "4z");
    // values
    for _ in 0..40 {
        let t = jsn::dump(&jsn::value(&mut c.rng, 4));
        let got = val(&t).value();
        c.check(got == t, "differs:Value", || format!("{t} became {got}"));
        c.seen(&t);
    }
}

fn property() -> Property {
    Property {
        id: "C31",
        rule: "one binding operation (constructor, conversion, signature, verification, digest, threshold, event) with one input, compared with the core operation on the same input; distinct by operation input",
        sections: vec![
            sec("tables", 3, 10, tables),
            sec("numbers", 3000, 60_000, numbers),
            sec("material", 30_000, 400_000, material),
            sec("indexed", 6000, 120_000, indexed),
            sec("texts", 3000, 60_000, texts),
            sec("signing", 1500, 8000, signing),
            sec("stretching", 800, 4000, stretching),
            sec("digests", 10_000, 60_000, digests),
            sec("saids", 6000, 60_000, saids),
            sec("prefixes", 8000, 60_000, prefixes),
            sec("thresholds", 4000, 80_000, thresholds),
            sec("events", 8000, 80_000, events),
        ],
        require: {
            let mut v = vec![
                ("both compared: accepted", 40_000u64), ("both compared: refused", 10_000), ("code", 180),
                ("128-bit integer", 5000), ("verified", 100), ("not verified", 100), ("fresh key", 20),
                ("weighted threshold", 500), ("numeric threshold", 300), ("satisfied", 1000), ("not satisfied", 500),
                ("event", 2000), ("long event", 20), ("identifier verified", 100), ("prefix verified", 100),
            ];
            if arrays() {
                v.extend([("event fields compared", 5000), ("list members compared", 1000), ("list argument", 1000)]);
            }
            v
        },
        assumptions: if arrays() {
            vec![
                "the bindings run on the host, compiled unchanged against stand-ins of wasm-bindgen and js-sys: what the JavaScript glue code and the engine add is not observed",
                "the same random source, clock and core library build as the core side",
                "values that cross the boundary as documents are well-formed JSON text",
            ]
        } else {
            vec!["fallback: the bindings run on the host against the real wasm-bindgen, so arrays and error objects could not be observed"]
        },
        termination: false,
    }
}
