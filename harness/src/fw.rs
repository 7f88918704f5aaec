//! Monitor framework: deterministic per-case PRNG, observation counters, three-valued verdicts,
//! crash isolation in a child process, replay files and evidence.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, salt: u64, index: u64) -> Self {
        let mut x = seed ^ salt.rotate_left(17) ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    /// the bytes as a tidying or framing hand leaves them; may be the same
    pub fn tidied(&mut self, d: &[u8]) -> Vec<u8> {
        let ends: [&[u8]; 10] = [b"\n", b"\r\n", b" ", b"\0", b"\t", b"=", b"\xef\xbb\xbf", b"\xc2\xa0", b"\0\0", b"\xff"];
        let e = *self.pick(&ends);
        match self.below(8) {
            0 | 1 => [d, e].concat(),
            2 => [e, d].concat(),
            3 | 4 => {
                let n = d.iter().rev().take_while(|b| b.is_ascii_whitespace() || **b == 0).count();
                d[..d.len() - n].to_vec()
            }
            5 => {
                let n = d.iter().take_while(|b| b.is_ascii_whitespace() || **b == 0).count();
                d[n..].to_vec()
            }
            6 => {
                if self.bool() {
                    d.to_ascii_lowercase()
                } else {
                    String::from_utf8_lossy(d).into_owned().into_bytes()
                }
            }
            _ => {
                let mut v = vec![];
                for b in d {
                    if *b == b'\n' {
                        v.push(b'\r');
                    }
                    if *b != b'\r' {
                        v.push(*b);
                    }
                }
                v
            }
        }
    }
    /// raw material with interesting patterns: random, zeros, ones, counters, sparse
    pub fn raw(&mut self, n: usize) -> Vec<u8> {
        match self.below(12) {
            5 | 6 => {
                // random between ends that look like blanks, padding or framing
                let ends: [&[u8]; 16] = [b"\n", b"\r\n", b" ", b"\0", b"\0\0", b"\0\0\0\0", b"=", b"==", b"\xef\xbb\xbf", b"\xc2\xa0", b"\t", b"}", b"{", b"\"", b"\xff\xff", b"\x80"];
                let mut v = self.bytes(n);
                let (a, b) = (*self.pick(&ends), *self.pick(&ends));
                let side = self.below(3);
                if side != 1 && a.len() <= n {
                    v[..a.len()].copy_from_slice(a);
                }
                if side != 0 && b.len() <= n {
                    v[n - b.len()..].copy_from_slice(b);
                }
                v
            }
            0 => vec![0u8; n],
            1 => vec![0xffu8; n],
            2 => (0..n).map(|i| i as u8).collect(),
            3 => {
                let mut v = vec![0u8; n];
                if n > 0 {
                    let i = self.below(n);
                    v[i] = 1 << self.below(8);
                }
                v
            }
            4 => {
                let mut v = vec![0xffu8; n];
                if n > 0 {
                    let i = self.below(n);
                    v[i] ^= 1 << self.below(8);
                }
                v
            }
            _ => self.bytes(n),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".into());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

#[derive(Debug, Clone)]
pub struct Crash {
    pub loc: String,
    pub msg: String,
}

impl Crash {
    /// stable signature: file and kind of message, no line numbers or data
    pub fn sig(&self) -> String {
        let file = self.loc.rsplit_once(':').map(|x| x.0).unwrap_or(&self.loc);
        let file = file.strip_prefix("/repo/").unwrap_or(file);
        let file = match file.find("/registry/src/") {
            Some(i) => file[i + 14..].splitn(2, '/').nth(1).unwrap_or(file),
            None => file,
        };
        format!("panic:{file}:{}", msg_kind(&self.msg))
    }
}

fn msg_kind(m: &str) -> String {
    let mut out = String::new();
    let mut word = 0;
    for w in m.split_whitespace() {
        if w.chars().any(|c| c.is_ascii_digit()) || w.contains('`') || w.contains('"') {
            continue;
        }
        if word > 0 {
            out.push('-');
        }
        out.push_str(&w.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect::<String>());
        word += 1;
        if word >= 8 {
            break;
        }
    }
    out
}

/// Runs code under test; a panic becomes a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Crash> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.downcast_ref::<LibFail>().is_some() {
                std::panic::resume_unwind(e);
            }
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            if is_harness_loc(&loc) {
                // a bug of this harness, not of the code under test: let the runner see it
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                std::panic::resume_unwind(e);
            }
            Err(Crash { loc, msg })
        }
    }
}

fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/src/")
}

/// The code under test refused or mangled something it has to support.
pub struct LibFail {
    pub sig: String,
    pub detail: String,
}

pub trait Must<T> {
    fn must(self, sig: &str) -> T;
}
impl<T, E: Debug> Must<T> for Result<T, E> {
    fn must(self, sig: &str) -> T {
        match self {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(Box::new(LibFail {
                sig: format!("refused:{sig}"),
                detail: format!("unexpected error: {e:?}"),
            }) as Box<dyn Any + Send>),
        }
    }
}

// ---------------------------------------------------------------- cases and verdicts

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub section: String,
    pub index: u64,
    pub detail: String,
}

#[derive(Default)]
pub struct Local {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// the first few of each signature
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub harness_errors: Vec<String>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub total: u64,
    pub thorough: bool,
    pub section: &'static str,
    pub notes: String,
    pub out: &'a mut Local,
    want_sample: bool,
}

thread_local! { static SALT: Cell<u64> = const { Cell::new(0) }; }

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl<'a> Case<'a> {
    /// One execution observed by the oracle; `key` identifies it (distinct, non-trivial case).
    pub fn seen<T: Hash + ?Sized>(&mut self, key: &T) {
        self.out.evaluations += 1;
        let h = hash_of(&(self.section, hash_of(key)));
        self.out.distinct.insert(h);
    }
    /// An execution observed that counts as trivial.
    pub fn seen_trivial(&mut self) {
        self.out.evaluations += 1;
    }
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1);
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        if let Some(x) = self.out.events.get_mut(name) {
            *x += n;
        } else {
            self.out.events.insert(name.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.out.samples.len() < 4 {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.out.samples.push(format!("[{}#{}] {}", self.section, self.index, s));
            self.want_sample = false;
        }
    }
    pub fn fail(&mut self, sig: &str, detail: String) {
        let n = self.out.counts.entry(sig.to_string()).or_insert(0);
        *n += 1;
        if *n <= 40 {
            let detail = if self.notes.is_empty() { detail } else { format!("{detail} | {}", self.notes) };
            self.out.violations.push(Violation {
                sig: sig.to_string(),
                section: self.section.to_string(),
                index: self.index,
                detail,
            });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    pub fn eq<T: PartialEq + Debug>(&mut self, sig: &str, got: T, want: T) -> bool {
        if got != want {
            let d = format!("got {} want {}", clip(&format!("{got:?}")), clip(&format!("{want:?}")));
            self.fail(sig, d);
            return false;
        }
        true
    }
    /// calls code under test that must not panic; a panic is reported and None returned
    pub fn total<T>(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(c) => {
                let i = input();
                self.fail(&format!("{what}:{}", c.sig()), format!("panicked at {} ({}) on {}", c.loc, c.msg, clip(&i)));
                None
            }
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.len() <= 1500 {
        return s.to_string();
    }
    let mut k = 1500;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}…({} bytes)", &s[..k], s.len())
}

/// One line of text: details hold hostile input, control characters and line breaks included.
pub fn plain(s: &str) -> String {
    s.chars().map(|c| if c.is_control() || c == '\u{2028}' || c == '\u{2029}' { c.escape_default().to_string() } else { c.to_string() }).collect()
}

pub type CaseFn = fn(&mut Case);

pub struct Section {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    /// run on one thread only
    pub serial: bool,
}

pub fn sec(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Section {
    Section { name, quick, thorough, run, serial: false }
}

pub fn sec_serial(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Section {
    Section { name, quick, thorough, run, serial: true }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub sections: Vec<Section>,
    /// observation counters that must reach the given value, or the run is inconclusive
    pub require: Vec<(&'static str, u64)>,
    pub assumptions: Vec<&'static str>,
    /// a case that does not end is a violation of this property
    pub termination: bool,
}

// ---------------------------------------------------------------- runner

pub struct Opts {
    pub verif: String,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(String, u64)>,
    pub slots: Option<std::fs::File>,
    pub threads: usize,
    pub budget: Duration,
    pub section: Option<String>,
}

fn run_case(s: &Section, idx: u64, total: u64, opts: &Opts, out: &mut Local) {
    let salt = hash_str(s.name);
    let mut case = Case {
        rng: Rng::new(opts.seed, salt, idx),
        index: idx,
        total,
        thorough: opts.thorough,
        section: s.name,
        notes: String::new(),
        want_sample: idx % (total / 3 + 1) == 0 || opts.replay.is_some(),
        out,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (s.run)(&mut case)));
    if let Err(e) = r {
        if let Some(f) = e.downcast_ref::<LibFail>() {
            let (a, b) = (f.sig.clone(), f.detail.clone());
            case.fail(&a, b);
            return;
        }
        let (loc, msg) =
            LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| ("?".into(), "?".into()));
        if is_harness_loc(&loc) || loc == "?" {
            case.out.harness_errors.push(format!("{}#{idx}: {loc}: {msg}", s.name));
        } else {
            let c = Crash { loc, msg };
            let d = format!("panicked at {} ({})", c.loc, c.msg);
            case.fail(&c.sig(), d);
        }
    }
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a: stable across builds
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct RunResult {
    pub local: Local,
    pub per_section: Vec<(String, u64, u64, f64)>,
    pub stopped_early: bool,
}

fn run_sections(p: &Property, opts: &Opts) -> RunResult {
    let start = Instant::now();
    let merged = Mutex::new(Local::default());
    let mut per_section = vec![];
    let stopped = AtomicBool::new(false);
    let known = load_known(&opts.verif);
    let nsec = p.sections.len().max(1) as u32;
    for (si, s) in p.sections.iter().enumerate() {
        if let Some((name, _)) = &opts.replay {
            if name != s.name {
                continue;
            }
        }
        if let Some(only) = &opts.section {
            if only != s.name {
                continue;
            }
        }
        let t0 = Instant::now();
        let mut total = if opts.thorough { s.thorough } else { s.quick };
        if let Some(pc) = std::env::var("CESR_SCALE").ok().and_then(|x| x.parse::<u64>().ok()) {
            total = (total * pc / 100).clamp(total.min(20), total);
        }
        let before = merged.lock().unwrap().evaluations;
        // share what is left of the budget evenly between the remaining sections
        let left = opts.budget.saturating_sub(start.elapsed());
        let deadline = t0 + left / (nsec - si as u32).max(1);
        if let Some((_, idx)) = &opts.replay {
            let mut l = Local::default();
            run_case(s, *idx, total.max(*idx + 1), opts, &mut l);
            merge(&mut merged.lock().unwrap(), l);
            per_section.push((s.name.to_string(), 1, 0, 0.0));
            continue;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let threads = if s.serial { 1 } else { opts.threads };
        let chunk = (total / (threads as u64 * 16)).clamp(1, 64);
        std::thread::scope(|sc| {
            for tid in 0..threads {
                let (next, done, merged, stopped, known) = (&next, &done, &merged, &stopped, &known);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut l = Local::default();
                        'o: loop {
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= total {
                                break;
                            }
                            for i in a..(a + chunk).min(total) {
                                if Instant::now() > deadline {
                                    stopped.store(true, Ordering::Relaxed);
                                    break 'o;
                                }
                                if let Some(f) = &opts.slots {
                                    let mut b = [0u8; 24];
                                    b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                    b[8..16].copy_from_slice(&i.to_le_bytes());
                                    let _ = f.write_at(&b, tid as u64 * 24);
                                }
                                run_case(s, i, total, opts, &mut l);
                                done.fetch_add(1, Ordering::Relaxed);
                            }
                            // a listed finding must not cut the rest of the section short
                            if l.counts.iter().any(|(s, n)| *n > 500 && !known.iter().any(|k| k.property == p.id && k.sig == *s)) || l.harness_errors.len() > 20 {
                                break;
                            }
                        }
                        if let Some(f) = &opts.slots {
                            let _ = f.write_at(&[0u8; 24], tid as u64 * 24);
                        }
                        merge(&mut merged.lock().unwrap(), l);
                    })
                    .expect("spawn");
            }
        });
        let after = merged.lock().unwrap().evaluations;
        per_section.push((
            s.name.to_string(),
            done.load(Ordering::Relaxed),
            after - before,
            t0.elapsed().as_secs_f64(),
        ));
    }
    RunResult {
        local: merged.into_inner().unwrap(),
        per_section,
        stopped_early: stopped.load(Ordering::Relaxed),
    }
}

fn merge(a: &mut Local, b: Local) {
    a.evaluations += b.evaluations;
    a.distinct.extend(b.distinct);
    for (k, v) in b.events {
        *a.events.entry(k).or_insert(0) += v;
    }
    for s in b.samples {
        if a.samples.len() < 12 {
            a.samples.push(s);
        }
    }
    a.violations.extend(b.violations);
    for (k, v) in b.counts {
        *a.counts.entry(k).or_insert(0) += v;
    }
    a.harness_errors.extend(b.harness_errors);
}

pub fn jstr(s: &str) -> String {
    serde_json::Value::String(s.to_string()).to_string()
}

struct Known {
    property: String,
    sig: String,
    what: String,
}

fn load_known(verif: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: property=") {
            let mut it = rest.splitn(2, " signature=");
            let property = it.next().unwrap_or("").trim().to_string();
            let rest = it.next().unwrap_or("");
            let mut it = rest.splitn(2, " :: ");
            let sig = it.next().unwrap_or("").trim().to_string();
            let what = it.next().unwrap_or("").trim().to_string();
            v.push(Known { property, sig, what });
        }
    }
    v
}

/// In the worker: run, print, write evidence; returns the exit code.
pub fn worker(p: &Property, opts: &Opts) -> i32 {
    let t0 = Instant::now();
    let r = run_sections(p, opts);
    conclude(p, opts, r, t0.elapsed().as_secs_f64())
}

pub fn conclude(p: &Property, opts: &Opts, r: RunResult, wall: f64) -> i32 {
    let known = load_known(&opts.verif);
    let l = r.local;
    let mut fresh: BTreeMap<String, (Violation, u64)> = BTreeMap::new();
    let mut old: BTreeMap<String, (String, u64)> = BTreeMap::new();
    for v in &l.violations {
        if let Some(k) = known.iter().find(|k| k.property == p.id && k.sig == v.sig) {
            old.entry(v.sig.clone()).or_insert((k.what.clone(), l.counts.get(&v.sig).copied().unwrap_or(1)));
        } else {
            let e = fresh.entry(v.sig.clone()).or_insert((v.clone(), l.counts.get(&v.sig).copied().unwrap_or(1)));
            // keep the smallest index: a stable witness
            if (v.section.clone(), v.index) < (e.0.section.clone(), e.0.index) {
                e.0 = v.clone();
            }
        }
    }
    // a listed finding is announced on every run, whether or not this seed met it
    for k in known.iter().filter(|k| k.property == p.id) {
        let n = old.get(&k.sig).map(|x| x.1).unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} [signature={} seen {} times in this run]", p.id, k.what, k.sig, n);
    }
    let missing: Vec<String> = if opts.replay.is_some() || opts.section.is_some() {
        vec![]
    } else {
        p.require
            .iter()
            .filter(|(n, min)| l.events.get(*n).copied().unwrap_or(0) < *min)
            .map(|(n, min)| format!("{n}: saw {} of {min}", l.events.get(*n).copied().unwrap_or(0)))
            .collect()
    };
    let tier = if opts.thorough { "thorough" } else { "quick" };
    for (n, cases, ev, secs) in &r.per_section {
        println!("  {}/{n}: {cases} cases, {ev} executions observed, {secs:.2}s", p.id);
    }
    println!(
        "{}: tier={tier} seed={} evaluations={} distinct={} violations={} known={} wall={wall:.1}s{}",
        p.id,
        opts.seed,
        l.evaluations,
        l.distinct.len(),
        fresh.len(),
        old.len(),
        if r.stopped_early { " (stopped at time budget)" } else { "" }
    );
    for (k, v) in &l.events {
        println!("    observed {k} = {v}");
    }
    for e in l.harness_errors.iter().take(5) {
        println!("HARNESS-ERROR {}", plain(e));
    }
    let mut lines = vec![];
    for (sig, (v, n)) in fresh.iter().take(25) {
        let name = format!("{}-{:08x}", p.id, hash_str(sig) as u32);
        let dir = format!("{}/replays", opts.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{name}.json");
        let body = format!(
            "{{\"property\":{},\"signature\":{},\"section\":{},\"index\":{},\"seed\":{},\"tier\":{},\"count\":{},\"detail\":{},\"replay_cmd\":{}}}\n",
            jstr(p.id), jstr(sig), jstr(&v.section), v.index, opts.seed, jstr(tier), n, jstr(&v.detail),
            jstr(&format!("/verif/run.sh replay {path}"))
        );
        let _ = std::fs::write(&path, body);
        lines.push(format!("VIOLATION property={} replay={path}", p.id));
        println!("  {} ({n}x) at {}#{}: {}", plain(sig), v.section, v.index, plain(&clip(&v.detail)));
    }
    if opts.replay.is_none() && opts.section.is_none() {
        let mut ev = String::from("{");
        for (i, (k, v)) in l.events.iter().enumerate() {
            if i > 0 {
                ev.push(',');
            }
            ev.push_str(&format!("{}:{v}", jstr(k)));
        }
        ev.push('}');
        let mut secs = String::from("[");
        for (i, (n, c, e, s)) in r.per_section.iter().enumerate() {
            if i > 0 {
                secs.push(',');
            }
            secs.push_str(&format!("{{\"section\":{},\"cases\":{c},\"executions\":{e},\"seconds\":{s:.3}}}", jstr(n)));
        }
        secs.push(']');
        let body = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"observed_events\":{},\"sections\":{},\"stopped_at_time_budget\":{},\"known_findings_seen\":{},\"inconclusive\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            jstr(p.id), jstr(tier), opts.seed, l.evaluations, l.distinct.len(), jstr(p.rule),
            l.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            ev, secs, r.stopped_early, old.len(),
            missing.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            wall, fresh.len()
        );
        let dir = format!("{}/evidence", opts.verif);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{dir}/{}.json", p.id), body);
    }
    let _ = std::io::stdout().flush();
    if !lines.is_empty() {
        for l in lines {
            println!("{l}");
        }
        return 1;
    }
    if !l.harness_errors.is_empty() {
        println!("INCONCLUSIVE property={}: the harness itself failed", p.id);
        return 2;
    }
    if !missing.is_empty() {
        println!("INCONCLUSIVE property={}: too little observed: {}", p.id, missing.join("; "));
        return 3;
    }
    if opts.replay.is_none() && opts.section.is_none() && (l.evaluations == 0 || l.distinct.is_empty()) {
        println!("INCONCLUSIVE property={}: nothing observed", p.id);
        return 3;
    }
    0
}

// ---------------------------------------------------------------- supervisor

/// Runs the worker in a child process, so that an abort, a stack overflow or a hang of the code
/// under test is observed instead of ending the monitor.
pub fn supervise(p: &Property, verif: &str, seed: u64, thorough: bool, limit: Duration) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let tmp = std::env::temp_dir().join(format!("cesr-monitor-{}-{}", p.id, std::process::id()));
    let _ = std::fs::write(&tmp, [0u8; 24 * 64]);
    let mut child = std::process::Command::new(&exe)
        .arg(p.id)
        .env("CESR_WORKER", "1")
        .env("CESR_SLOTS", &tmp)
        .spawn()
        .expect("spawn worker");
    let start = Instant::now();
    let mut last = (Vec::new(), Instant::now());
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None => {
                std::thread::sleep(Duration::from_millis(30));
                let cur = std::fs::read(&tmp).unwrap_or_default();
                if cur != last.0 {
                    last = (cur, Instant::now());
                }
                let idle = cur_active(&last.0) && last.1.elapsed() > Duration::from_secs(90);
                if start.elapsed() > limit || (idle && p.termination) {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
            }
        }
    };
    if let Some(s) = status {
        if let Some(c) = s.code() {
            let _ = std::fs::remove_file(&tmp);
            return c;
        }
    }
    // abnormal end: which case?
    let slots = std::fs::read(&tmp).unwrap_or_default();
    let _ = std::fs::remove_file(&tmp);
    let sig = status.and_then(|s| s.signal());
    println!("worker ended abnormally: signal {sig:?}; replaying the cases in flight");
    let crash = matches!(sig, Some(4 | 5 | 6 | 7 | 8 | 11));
    for ch in slots.chunks(24) {
        if ch.len() < 24 {
            continue;
        }
        let si = u64::from_le_bytes(ch[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(ch[8..16].try_into().unwrap());
        if si == 0 {
            continue;
        }
        let section = p.sections[si as usize - 1].name;
        let st = std::process::Command::new("bash")
            .arg("-c")
            .arg("ulimit -t 30; ulimit -c 0; exec \"$0\" \"$@\" >/dev/null 2>&1")
            .arg(&exe)
            .arg(p.id)
            .env("CESR_WORKER", "1")
            .env("CESR_REPLAY", format!("{section}#{idx}"))
            .status()
            .expect("replay");
        let s2 = st.signal();
        let confirmed = if crash {
            matches!(s2, Some(4 | 5 | 6 | 7 | 8 | 11))
        } else {
            p.termination && matches!(s2, Some(9 | 24))
        };
        if confirmed {
            let what = if crash { "process-crash" } else { "no-termination-in-30-cpu-seconds" };
            let mut l = Local::default();
            l.evaluations = 1;
            l.violations.push(Violation {
                sig: format!("{what}:{section}"),
                section: section.to_string(),
                index: idx,
                detail: format!("the process ended with signal {s2:?} on this case, twice"),
            });
            let opts = Opts {
                verif: verif.to_string(), seed, thorough, replay: None, slots: None, threads: 1,
                budget: limit, section: None,
            };
            return conclude(p, &opts, RunResult { local: l, per_section: vec![], stopped_early: false }, start.elapsed().as_secs_f64());
        }
    }
    println!("INCONCLUSIVE property={}: worker ended with {status:?} and no case reproduces it", p.id);
    4
}

fn cur_active(b: &[u8]) -> bool {
    b.iter().any(|x| *x != 0)
}
