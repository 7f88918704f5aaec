//! C29: no released heap block still holds secret material.
//!
//! The global allocator of this program looks at every block at the moment it is released (or
//! outgrown by a reallocation) on a thread that has armed it, and searches it for fragments of the
//! secret and of its text form.
use crate::cesr::{dec, matter_qb64};
use crate::fw::*;
use crate::p_sign::{rand_msg, SUITES};
use crate::suites;
use cesride::{Matter, Salter, Signer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const CHUNK: usize = 8;
const TEXT: usize = 10;
const MAX: usize = 40;

struct Needles {
    raw: [[u8; CHUNK]; MAX],
    raws: usize,
    text: [[u8; TEXT]; MAX],
    texts: usize,
    hits_raw: u64,
    hits_text: u64,
    largest: usize,
    blocks: u64,
    bytes: u64,
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static LOG: UnsafeCell<Log> = const { UnsafeCell::new(Log { n: 0, blocks: [(0, [0; LOG_BLOCK]); LOG_SLOTS] }) };
    static NEEDLES: UnsafeCell<Needles> = const { UnsafeCell::new(Needles {
        raw: [[0; CHUNK]; MAX], raws: 0, text: [[0; TEXT]; MAX], texts: 0,
        hits_raw: 0, hits_text: 0, largest: 0, blocks: 0, bytes: 0,
    }) };
}

const LOG_BLOCK: usize = 256;
const LOG_SLOTS: usize = 512;
/// the contents of the blocks released while a secret was made, searched once it is known
struct Log {
    n: usize,
    blocks: [(usize, [u8; LOG_BLOCK]); LOG_SLOTS],
}

unsafe fn log(p: *const u8, n: usize) {
    let _ = LOG.try_with(|l| {
        let l = &mut *l.get();
        if l.n < LOG_SLOTS && n <= LOG_BLOCK {
            l.blocks[l.n].0 = n;
            std::ptr::copy_nonoverlapping(p, l.blocks[l.n].1.as_mut_ptr(), n);
            l.n += 1;
        }
    });
}

/// runs `f` with the released blocks recorded, and returns how many there were
fn logged<T>(f: impl FnOnce() -> T) -> T {
    LOG.with(|l| unsafe { (*l.get()).n = 0 });
    LOGGING.with(|a| a.set(true));
    let r = f();
    LOGGING.with(|a| a.set(false));
    r
}

/// searches the recorded blocks; (blocks, blocks with fragments)
fn search_log(secret: &[u8], text: &str) -> (u64, u64) {
    arm(secret, text);
    let mut hit = 0;
    let n = LOG.with(|l| unsafe {
        let l = &*l.get();
        for (n, b) in &l.blocks[..l.n] {
            let before = NEEDLES.with(|k| (*k.get()).hits_raw + (*k.get()).hits_text);
            look(b.as_ptr(), *n);
            let after = NEEDLES.with(|k| (*k.get()).hits_raw + (*k.get()).hits_text);
            hit += (after > before) as u64;
        }
        l.n
    });
    disarm();
    (n as u64, hit)
}

pub struct Watch;

unsafe fn look(p: *const u8, n: usize) {
    let _ = ARMED.try_with(|a| {
        if !a.get() {
            return;
        }
        let _ = NEEDLES.try_with(|k| {
            let k = &mut *k.get();
            k.blocks += 1;
            k.bytes += n as u64;
            // the large working memory of the stretching function is sampled at both ends
            let spans = if n <= 1 << 20 { [(0, n), (0, 0)] } else { [(0, 1 << 16), (n - (1 << 16), 1 << 16)] };
            for (at, len) in spans {
                let b = std::slice::from_raw_parts(p.add(at), len);
                for i in 0..len {
                    let r = &b[i..];
                    if r.len() >= CHUNK && k.raw[..k.raws].iter().any(|x| x[0] == r[0] && *x == r[..CHUNK]) {
                        k.hits_raw += 1;
                        k.largest = k.largest.max(n);
                        break;
                    }
                }
                for i in 0..len {
                    let r = &b[i..];
                    if r.len() >= TEXT && k.text[..k.texts].iter().any(|x| x[0] == r[0] && *x == r[..TEXT]) {
                        k.hits_text += 1;
                        k.largest = k.largest.max(n);
                        break;
                    }
                }
            }
        });
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // zeroed, so that a block never holds anything its owner did not put there
        System.alloc_zeroed(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            look(p, l.size());
        }
        if LOGGING.try_with(|a| a.get()).unwrap_or(false) {
            log(p, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // always move, so that what is left behind can be looked at
        let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[derive(Debug, Default, Clone, Copy)]
struct Seen {
    raw: u64,
    text: u64,
    largest: usize,
    blocks: u64,
    bytes: u64,
}

fn arm(secret: &[u8], text: &str) {
    NEEDLES.with(|k| unsafe {
        let k = &mut *k.get();
        k.raws = 0;
        k.texts = 0;
        let mut put = |o: usize| {
            if o + CHUNK <= secret.len() && k.raws < MAX {
                k.raw[k.raws].copy_from_slice(&secret[o..o + CHUNK]);
                k.raws += 1;
            }
        };
        for o in (0..secret.len()).step_by(CHUNK) {
            put(o);
        }
        put(secret.len() - CHUNK);
        let t = text.as_bytes();
        // one byte per Base64 digit, as the sextet helpers hold it
        let mut o = 4;
        while o + CHUNK <= t.len() && k.raws < MAX {
            for j in 0..CHUNK {
                k.raw[k.raws][j] = crate::cesr::ALPHABET.iter().position(|x| *x == t[o + j]).unwrap_or(0) as u8;
            }
            k.raws += 1;
            o += CHUNK;
        }
        let mut o = 2;
        while o + TEXT <= t.len() && k.texts < MAX {
            k.text[k.texts].copy_from_slice(&t[o..o + TEXT]);
            k.texts += 1;
            o += TEXT / 2;
        }
        k.hits_raw = 0;
        k.hits_text = 0;
        k.largest = 0;
        k.blocks = 0;
        k.bytes = 0;
    });
    ARMED.with(|a| a.set(true));
}

fn disarm() -> Seen {
    ARMED.with(|a| a.set(false));
    NEEDLES.with(|k| unsafe {
        let k = &*k.get();
        Seen { raw: k.hits_raw, text: k.hits_text, largest: k.largest, blocks: k.blocks, bytes: k.bytes }
    })
}

/// runs `f` armed; what it returns is released after disarming
fn watched<T>(c: &mut Case, what: &str, secret: &[u8], text: &str, f: impl FnOnce() -> T) -> T {
    arm(secret, text);
    let r = guard(f);
    let s = disarm();
    c.evn("blocks watched at release", s.blocks);
    c.evn("bytes watched at release", s.bytes);
    c.ev(what);
    c.check(s.raw == 0, &format!("secret-in-released-memory:{what}"), || {
        format!("{} released blocks held fragments of the raw secret (largest block {} bytes, {} blocks watched)", s.raw, s.largest, s.blocks)
    });
    c.check(s.text == 0, &format!("secret-text-in-released-memory:{what}"), || {
        format!("{} released blocks held the secret as text (largest block {} bytes)", s.text, s.largest)
    });
    match r {
        Ok(v) => v,
        Err(e) => {
            c.fail(&e.sig(), format!("{what}: {} {}", e.loc, e.msg));
            std::panic::resume_unwind(Box::new(LibFail { sig: e.sig(), detail: e.msg }));
        }
    }
}

fn seed_of(r: &mut Rng, suite: &str) -> Vec<u8> {
    loop {
        let s = r.bytes(32);
        if suites::valid_seed(suite, &s) {
            return s;
        }
    }
}

/// keeps what the caller was given from being released in the clear (that copy is the caller's)
fn keep<T>(t: T) -> T {
    t
}

pub fn signers(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let secret = seed_of(&mut c.rng, suite);
    let text = matter_qb64(suite, &secret);
    let bin = dec(text.as_bytes()).unwrap();
    let t = c.rng.bool();
    let msg = rand_msg(&mut c.rng);
    let route = c.rng.below(6);
    let what = ["build:raw", "build:qb64", "build:qb64b", "build:qb2", "build:long-raw", "build:raw-default"][route];
    let mut long = secret.clone();
    long.extend([7u8; 5]);
    let s = watched(c, what, &secret, &text, || match route {
        0 | 5 => Signer::new_with_raw(&secret, Some(t), Some(suite)),
        1 => Signer::new_with_qb64(&text, Some(t)),
        2 => Signer::new_with_qb64b(text.as_bytes(), Some(t)),
        3 => Signer::new_with_qb2(&bin, Some(t)),
        _ => Signer::new_with_raw(&long, Some(t), Some(suite)),
    })
    .must("signer");
    for _ in 0..c.rng.range(1, 5) {
        match c.rng.below(12) {
            0 | 1 => {
                watched(c, "sign_unindexed", &secret, &text, || s.sign_unindexed(&msg).is_ok());
            }
            2 | 3 => {
                let (only, i) = (c.rng.bool(), c.rng.below(100) as u32);
                watched(c, "sign_indexed", &secret, &text, || s.sign_indexed(&msg, only, i, None).is_ok());
            }
            4 => {
                let (i, o) = (c.rng.u32(), c.rng.u32());
                watched(c, "sign_indexed refused", &secret, &text, || s.sign_indexed(&msg, true, i, Some(o)).is_ok());
            }
            5 => {
                let r = watched(c, "to qb64", &secret, &text, || keep(s.qb64()));
                std::mem::forget(r);
            }
            6 => {
                let r = watched(c, "to qb64b", &secret, &text, || keep(s.qb64b()));
                std::mem::forget(r);
            }
            7 => {
                let r = watched(c, "to qb2", &secret, &text, || keep(s.qb2()));
                std::mem::forget(r);
            }
            8 => {
                watched(c, "verfer", &secret, &text, || (s.verfer().code(), s.code(), s.size(), s.transferable(), s.full_size().is_ok()));
            }
            9 => {
                let r = watched(c, "clone", &secret, &text, || s.clone());
                watched(c, "drop of clone", &secret, &text, || drop(r));
            }
            10 => {
                let d = s.clone();
                watched(c, "compare", &secret, &text, || s == d);
            }
            _ => {
                let r = watched(c, "raw", &secret, &text, || s.raw());
                std::mem::forget(r);
            }
        }
    }
    watched(c, "drop of signer", &secret, &text, || drop(s));
    // dropped on an unwinding path and inside containers
    let s = Signer::new_with_raw(&secret, Some(t), Some(suite)).must("signer");
    match c.rng.below(3) {
        0 => {
            let v = vec![s.clone(), s];
            watched(c, "drop in a list", &secret, &text, || drop(v));
        }
        1 => {
            let b = Box::new(Some(s));
            watched(c, "drop in a box", &secret, &text, || drop(b));
        }
        _ => {
            let mut a = Some(s);
            let other = seed_of(&mut c.rng, suite);
            let o = Signer::new_with_raw(&other, None, Some(suite)).must("signer");
            watched(c, "replaced", &secret, &text, || a = Some(o));
        }
    }
    c.seen(&(what, suite, t, secret));
}

pub fn malformed(c: &mut Case) {
    // refused material is wiped as well
    let suite = SUITES[c.index as usize % 3];
    let secret = seed_of(&mut c.rng, suite);
    let text = matter_qb64(suite, &secret);
    let bin = dec(text.as_bytes()).unwrap();
    watched(c, "refused: salt from a seed", &secret, &text, || {
        let _ = Salter::new_with_qb64(&text, None);
        let _ = Salter::new_with_qb64b(text.as_bytes(), None);
        let _ = Salter::new_with_qb2(&bin, None);
    });
    watched(c, "refused: wrong code", &secret, &text, || {
        let _ = Signer::new_with_raw(&secret, None, Some("E"));
        let _ = Signer::new_with_raw(&secret[..31], None, Some(suite));
    });
    c.seen(&(suite, secret));
}

pub fn salts(c: &mut Case) {
    let secret = c.rng.bytes(16);
    let text = matter_qb64("0A", &secret);
    let bin = dec(text.as_bytes()).unwrap();
    let route = c.rng.below(4);
    let what = ["salt:raw", "salt:qb64", "salt:qb64b", "salt:qb2"][route];
    let s = watched(c, what, &secret, &text, || match route {
        0 => Salter::new_with_raw(&secret, None, None),
        1 => Salter::new_with_qb64(&text, None),
        2 => Salter::new_with_qb64b(text.as_bytes(), None),
        _ => Salter::new_with_qb2(&bin, None),
    })
    .must("salter");
    for _ in 0..c.rng.range(1, 4) {
        match c.rng.below(8) {
            0 | 1 => {
                let suite = *c.rng.pick(&SUITES);
                let t = c.rng.bool();
                let r = watched(c, "derive signer", &secret, &text, || s.signer(Some(suite), Some(t), Some("01"), None, Some(true)));
                // the derived seed is a secret of its own, also while it is being derived
                if let Ok(d) = r {
                    let raw = d.raw();
                    let dt = matter_qb64(suite, &raw);
                    let d2 = watched(c, "derivation of a signer", &raw, &dt, || s.signer(Some(suite), Some(t), Some("01"), None, Some(true)));
                    watched(c, "drop of derived signer", &raw, &dt, || drop(d2));
                    watched(c, "drop of derived signer", &raw, &dt, || drop(d));
                }
            }
            2 => {
                let r = watched(c, "derive signers", &secret, &text, || s.signers(Some(6), Some(9), Some("p"), None, None, None, Some(true)));
                if let Ok(v) = r {
                    let raw = v[c.rng.below(6)].raw();
                    let dt = matter_qb64("A", &raw);
                    let v2 = watched(c, "derivation of signers", &raw, &dt, || s.signers(Some(6), Some(9), Some("p"), None, None, None, Some(true)));
                    watched(c, "drop of derived signers", &raw, &dt, || drop(v2));
                    watched(c, "drop of derived signers", &raw, &dt, || drop(v));
                }
            }
            3 => {
                let r = watched(c, "stretch", &secret, &text, || s.stretch(None, Some("x"), None, Some(true)));
                std::mem::forget(r);
            }
            4 => {
                let r = watched(c, "salt to qb64", &secret, &text, || s.qb64());
                std::mem::forget(r);
            }
            5 => {
                let r = watched(c, "salt to qb64b", &secret, &text, || s.qb64b());
                std::mem::forget(r);
            }
            6 => {
                let r = watched(c, "salt to qb2", &secret, &text, || s.qb2());
                std::mem::forget(r);
            }
            _ => {
                watched(c, "refused stretch", &secret, &text, || {
                    let _ = s.stretch(Some(0), None, None, Some(true));
                    let _ = s.stretch(None, None, Some("nope"), None);
                    let _ = s.signer(Some("E"), None, None, None, Some(true));
                    let _ = s.signer(Some("zz"), None, None, None, Some(true));
                });
            }
        }
    }
    let k = s.clone();
    watched(c, "drop of salt clone", &secret, &text, || drop(k));
    watched(c, "drop of salt", &secret, &text, || drop(s));
    c.seen(&(what, secret));
}

/// freshly generated secrets: what is found after the fact is searched for in a second drop
pub fn fresh(c: &mut Case) {
    let suite = SUITES[c.index as usize % 3];
    let s = logged(|| Signer::new_with_defaults(None, Some(suite))).must("signer");
    let raw = s.raw();
    let text = matter_qb64(suite, &raw);
    let (n, hit) = search_log(&raw, &text);
    c.evn("blocks recorded during generation", n);
    c.check(hit == 0, "secret-in-released-memory:generation of a signer", || format!("{hit} of {n} released blocks"));
    watched(c, "drop of generated signer", &raw, &text, || drop(s));
    let s = logged(|| Salter::new_with_defaults(None)).must("salter");
    let raw = s.raw();
    let text = matter_qb64("0A", &raw);
    let (n, hit) = search_log(&raw, &text);
    c.evn("blocks recorded during generation", n);
    c.check(hit == 0, "secret-in-released-memory:generation of a salt", || format!("{hit} of {n} released blocks"));
    watched(c, "drop of generated salt", &raw, &text, || drop(s));
    c.seen(&raw);
}

/// the monitor itself must see a secret that is released in the clear, whole or in part
pub fn control(c: &mut Case) {
    let secret = c.rng.bytes(32);
    let text = matter_qb64("A", &secret);
    for k in 0..5 {
        arm(&secret, &text);
        match k {
            0 => drop(std::hint::black_box(secret.clone())),
            1 => drop(std::hint::black_box(text.clone())),
            2 => drop(std::hint::black_box([&[1u8, 2, 3][..], &secret[16..], &[9]].concat())),
            3 => {
                let mut v = Vec::with_capacity(32);
                v.extend_from_slice(&secret);
                v.push(1); // outgrows its block
                std::hint::black_box(&mut v).fill(0);
                drop(v);
            }
            _ => drop(std::hint::black_box(format!("x{text}y"))),
        }
        let s = disarm();
        assert!(s.raw + s.text > 0, "the monitor is blind ({k})");
        c.ev("planted leaks seen by the monitor");
    }
    let r = logged(|| drop(std::hint::black_box(secret.clone())));
    let (n, hit) = search_log(&secret, &text);
    assert!(n == 1 && hit == 1, "the log is blind {r:?} {n} {hit}");
    c.ev("planted leaks seen by the monitor");
    c.seen_trivial();
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C29",
        rule: "an execution is one build, use or drop of a secret with every heap block released meanwhile searched for fragments (8 bytes, 10 characters) of it; distinct by secret and route",
        sections: vec![
            sec("control", 50, 200, control),
            sec("signers", 20_000, 150_000, signers),
            sec("salts", 15_000, 100_000, salts),
            sec("malformed", 2_500, 5_000, malformed),
            sec("fresh", 2_500, 20_000, fresh),
        ],
        require: vec![
            ("planted leaks seen by the monitor", 200),
            ("blocks watched at release", 50_000),
            ("drop of signer", 2_000),
            ("drop of salt", 2_000),
            ("sign_unindexed", 500),
            ("sign_indexed", 500),
            ("derivation of a signer", 300),
            ("to qb64b", 100),
            ("blocks recorded during generation", 2_000),
        ],
        assumptions: vec![
            "heap memory only: registers and dead stack frames are not searched",
            "copies handed to the caller (raw, text, binary, stretched seed) are the caller's",
        ],
        termination: false,
    }]
}
