//! C30: operations give the same results alone, in any history, on any number of threads, from a
//! cold start; sanitizers watch the same workloads.
use crate::fw::*;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

struct Ran {
    out: String,
    err: String,
    code: Option<i32>,
    late: bool,
}

/// runs a program with a time limit; a program that does not end is killed and reported as late
fn run(cmd: &mut Command, limit: Duration) -> Ran {
    use std::io::Read;
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("start child");
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = o.read_to_end(&mut v);
        v
    });
    let he = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let t = Instant::now();
    let mut nap = 1;
    let mut late = false;
    let code = loop {
        match ch.try_wait().expect("wait for child") {
            Some(s) => break s.code(),
            None if t.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                late = true;
                break None;
            }
            None => {
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(50);
            }
        }
    };
    let s = |v: Vec<u8>| String::from_utf8_lossy(&v).into_owned();
    Ran { out: s(ho.join().unwrap_or_default()), err: s(he.join().unwrap_or_default()), code, late }
}

fn exe(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|p| std::path::Path::new(p).exists())
}

fn stress() -> String {
    exe("CESR_STRESS").expect("CESR_STRESS names the stress program")
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

struct Base {
    file: String,
    lines: Vec<String>,
    total: u64,
}

/// the result of every operation, each from a process that ran nothing else
fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        let s = stress();
        let r = run(Command::new(&s).arg("list"), Duration::from_secs(60));
        let total: u64 = r.out.split_whitespace().next().and_then(|x| x.parse().ok()).expect("stress list");
        let next = std::sync::atomic::AtomicU64::new(0);
        let lines = std::sync::Mutex::new(vec![String::new(); total as usize]);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    let r = run(Command::new(&s).args(["one", &seed().to_string(), &i.to_string()]), Duration::from_secs(120));
                    let l = match r.code {
                        Some(0) => r.out.lines().next().unwrap_or("").to_string(),
                        c => format!("{i}\t?\tENDED {c:?}"),
                    };
                    lines.lock().unwrap()[i as usize] = l;
                });
            }
        });
        let lines = lines.into_inner().unwrap();
        let file = std::env::temp_dir().join(format!("cesr-stress-{}-{}", std::process::id(), seed()));
        std::fs::write(&file, lines.join("\n") + "\n").expect("baseline file");
        Base { file: file.to_string_lossy().into_owned(), lines, total }
    })
}

fn tail(s: &str) -> String {
    clip(&s.lines().filter(|l| !l.trim().is_empty()).take(45).collect::<Vec<_>>().join(" / "))
}

/// first frame of a sanitizer report that lies in the library
fn frame(err: &str) -> String {
    for l in err.lines() {
        let l = l.trim();
        if l.starts_with('#') && l.contains("cesride") {
            let f = l.split_whitespace().nth(1).unwrap_or("?");
            let f = l.split(" in ").nth(1).and_then(|x| x.split_whitespace().next()).unwrap_or(f);
            let f: String = f.chars().filter(|c| c.is_ascii_alphanumeric() || "_:<>".contains(*c)).collect();
            return f.split("::h").next().unwrap_or("?").to_string();
        }
    }
    "elsewhere".into()
}

fn judge(c: &mut Case, what: &str, r: &Ran, how: &str) {
    if r.late {
        c.fail(&format!("{what}:did-not-end"), format!("{how}: {}", tail(&r.err)));
        return;
    }
    for (mark, sig) in [
        ("WARNING: ThreadSanitizer: data race", "data-race"),
        ("WARNING: ThreadSanitizer", "thread-sanitizer"),
        ("ERROR: AddressSanitizer", "invalid-memory-access"),
        ("ERROR: LeakSanitizer", "leak"),
        ("Undefined Behavior", "undefined-behaviour"),
        ("unsafe precondition", "undefined-behaviour"),
    ] {
        if r.err.contains(mark) {
            c.fail(&format!("{what}:{sig}:{}", frame(&r.err)), format!("{how}: {}", tail(&r.err[r.err.find(mark).unwrap_or(0)..])));
            return;
        }
    }
    let mut any = false;
    for l in r.out.lines().filter(|l| l.starts_with("MISMATCH")) {
        let kind = l.split_whitespace().find(|w| w.starts_with("kind=")).unwrap_or("kind=?");
        c.fail(&format!("{what}:result-differs:{}", &kind[5..]), format!("{how}: {}", clip(l)));
        any = true;
    }
    if any {
        return;
    }
    if r.code != Some(0) {
        c.fail(&format!("{what}:ended-abnormally"), format!("{how}: exit {:?}: {} {}", r.code, tail(&r.out), tail(&r.err)));
        return;
    }
    if let Some(l) = r.out.lines().find(|l| l.starts_with("DONE")) {
        let n = l.split_whitespace().find_map(|w| w.strip_prefix("operations=")).and_then(|x| x.parse().ok()).unwrap_or(0u64);
        c.evn(&format!("{what} operations compared"), n);
    }
    c.ev(&format!("{what} runs"));
}

pub fn c30_alone(c: &mut Case) {
    let b = base();
    let i = c.index % b.total;
    let r = run(Command::new(stress()).args(["one", &seed().to_string(), &i.to_string()]), Duration::from_secs(120));
    let got = r.out.lines().next().unwrap_or("").to_string();
    let want = &b.lines[i as usize];
    let name = want.split('\t').nth(1).unwrap_or("?").to_string();
    c.check(got == *want, &format!("alone:not-repeatable:{name}"), || format!("{got} then {want}"));
    c.check(!want.contains("CHANGED-RESULT"), &format!("alone:result-changes:{name}"), || want.clone());
    c.check(!want.contains("CHANGED-VALUE"), &format!("alone:value-changes:{name}"), || want.clone());
    if !want.contains("PANIC") && !want.contains("ENDED") {
        c.ev("operations with a result");
    }
    c.sample(|| want.clone());
    c.seen(want);
}

fn par(c: &mut Case, what: &str, prog: &str, threads: usize, n: u64, order: u64, baseline: bool, limit: u64, env: &[(&str, &str)]) {
    let mut cmd = Command::new(prog);
    cmd.args(["par", &seed().to_string(), &threads.to_string(), &n.to_string(), &order.to_string()]);
    if baseline {
        cmd.arg(&base().file);
    }
    for (k, v) in env {
        cmd.env(k, v);
    }
    let r = run(&mut cmd, Duration::from_secs(limit));
    judge(c, what, &r, &format!("par seed {} threads {threads} operations {n} order {order}", seed()));
    c.sample(|| format!("{what}: {threads} threads x {n} operations, history {order}: {}", r.out.trim()));
    c.seen(&(what, threads, n, order));
}

/// one thread, long mixed histories
pub fn c30_history(c: &mut Case) {
    let (order, n) = (c.rng.u64() >> 1, if c.thorough { 6000 } else { 2500 });
    par(c, "history", &stress(), 1, n, order, true, 300, &[]);
}

/// many threads starting on the same kind of operation in a fresh process
pub fn c30_cold(c: &mut Case) {
    let t = [2, 3, 4, 8, 16][c.rng.below(5)];
    let order = (c.rng.u64() >> 12 << 10) + c.index; // every kind gets its turn
    let env = if c.rng.bool() { &[("CESR_PREEMPT", "1")][..] } else { &[] };
    par(c, "cold", &stress(), t, 12, order, true, 300, env);
}

pub fn c30_crowd(c: &mut Case) {
    let order = c.rng.u64() >> 1;
    let t = [8, 12, 16][c.rng.below(3)];
    let env = if c.rng.bool() { &[("CESR_PREEMPT", "1")][..] } else { &[] };
    par(c, "crowd", &stress(), t, if c.thorough { 800 } else { 250 }, order, true, 600, env);
}

/// threads stepped instruction by instruction: all of them through their first operation in a fresh process, or
/// one of them at random places while the others repeat the same kind of operation
pub fn c30_step(c: &mut Case) {
    let b = base();
    let kinds = b.total / 12;
    let (kind, other) = (c.index / 2 % kinds, c.rng.below(kinds as usize) as u64);
    let mode = c.index % 2;
    let t = if mode == 0 { [2, 3, 4, 6][c.rng.below(4)] } else { 4 };
    stepped(c, t, mode, kind, other, c.index);
}

fn stepped(c: &mut Case, t: u64, mode: u64, kind: u64, other: u64, salt: u64) -> bool {
    let mut cmd = Command::new(stress());
    cmd.args(["step", &seed().to_string(), &t.to_string(), &mode.to_string(), &kind.to_string(), &other.to_string(), &base().file, &salt.to_string()]);
    let r = run(&mut cmd, Duration::from_secs(120));
    let what = if mode == 2 { "held" } else { "step" };
    judge(c, what, &r, &format!("step seed {} threads {t} mode {mode} kind {kind} and {other} salt {salt}", seed()));
    let n = |key: &str| r.out.split(key).nth(1).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse().ok()).unwrap_or(0u64);
    c.evn("instructions stepped", n("stepped="));
    c.evn("threads held", n("stalls="));
    c.sample(|| r.out.trim().to_string());
    c.seen(&(kind, other, t, mode, salt));
    r.out.contains("held=true")
}

/// the first operation of a fresh process, held after each of its writes to static memory in turn while other
/// threads run the same kind of operation
pub fn c30_held(c: &mut Case) {
    let variant = if c.thorough { c.index % 12 } else { c.index % 3 * 4 + c.rng.below(4) as u64 };
    for write in 0..if c.thorough { 64 } else { 10 } {
        let held = stepped(c, 4, 2, c.index / if c.thorough { 12 } else { 3 }, variant, write);
        if !held {
            break;
        }
        c.ev("static writes");
    }
}

/// threads repeating one kind of operation on near-identical inputs while a timer interrupts each of them
pub fn c30_hammer(c: &mut Case) {
    let b = base();
    let kinds = b.total / 12;
    let (kind, other) = (c.index % kinds, c.rng.below(kinds as usize) as u64);
    let t = [4, 16, 24][c.rng.below(3)];
    let ms = if c.thorough { 1500 } else { 200 };
    let mut cmd = Command::new(stress());
    cmd.args(["hammer", &seed().to_string(), &t.to_string(), &ms.to_string(), &kind.to_string(), &other.to_string(), &b.file]);
    let r = run(&mut cmd, Duration::from_secs(300));
    judge(c, "hammer", &r, &format!("hammer seed {} threads {t} kind {kind} and {other} for {ms} ms", seed()));
    let n = r.out.split("interruptions=").nth(1).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse().ok()).unwrap_or(0u64);
    c.evn("interruptions", n);
    c.sample(|| r.out.trim().to_string());
    c.seen(&(kind, other, t));
}

/// one thread repeating one kind of operation for as long as there is time
pub fn c30_marathon(c: &mut Case) {
    let b = base();
    let kind = c.index % (b.total / 12);
    let ms = if c.thorough { 12_000 } else { 1_000 };
    let mut cmd = Command::new(stress());
    cmd.args(["hammer", &seed().to_string(), "1", &ms.to_string(), &kind.to_string(), &kind.to_string(), &b.file]);
    let r = run(&mut cmd, Duration::from_secs(300));
    judge(c, "marathon", &r, &format!("hammer seed {} threads 1 kind {kind} for {ms} ms", seed()));
    c.sample(|| r.out.trim().to_string());
    c.seen(&(kind, "marathon"));
}

const TSAN: [(&str, &str); 1] = [("TSAN_OPTIONS", "exitcode=66 halt_on_error=0 history_size=4")];

pub fn c30_tsan(c: &mut Case) {
    let Some(p) = exe("CESR_TSAN") else { return };
    let t = [2, 4, 8][c.rng.below(3)];
    let order = (c.rng.u64() >> 12 << 10) + c.index;
    par(c, "tsan", &p, t, if c.index % 4 == 3 { 120 } else { 8 }, order, true, 600, &TSAN);
}

/// the other monitors' workloads, run under the address sanitizer
pub fn c30_asan(c: &mut Case) {
    let Some(p) = exe("CESR_ASAN") else { return };
    const W: [&str; 24] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21", "C22", "C23", "C24", "C25", "C28",
    ];
    let id = W[c.index as usize % W.len()];
    let dir = std::env::temp_dir().join(format!("cesr-asan-{}-{}", std::process::id(), c.index));
    let _ = std::fs::create_dir_all(&dir);
    let s = (seed() + c.index / W.len() as u64).to_string();
    let mut cmd = Command::new(&p);
    cmd.arg(id)
        .env("CESR_VERIF", &dir)
        .env("CESR_WORKER", "1")
        .env("CESR_THREADS", "1")
        .env("CESR_BUDGET", if c.thorough { "120" } else { "6" })
        .env("CESR_SCALE", if c.thorough { "10" } else { "2" })
        .env("VERIF_SEED", &s)
        .env("VERIF_TIER", "quick")
        .env_remove("CESR_SLOTS")
        .env("ASAN_OPTIONS", "detect_leaks=0:exitcode=67:allocator_may_return_null=1");
    let r = run(&mut cmd, Duration::from_secs(600));
    let _ = std::fs::remove_dir_all(&dir);
    if r.late {
        c.ev("asan runs cut short");
        return;
    }
    if r.err.contains("AddressSanitizer") || r.err.contains("unsafe precondition") {
        judge(c, "asan", &r, &format!("workload {id} seed {s}"));
    } else {
        // what the workload's own monitor thinks is for its own check to say
        let n: u64 = r.out.split("evaluations=").nth(1).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse().ok()).unwrap_or(0);
        c.evn("asan executions", n);
        c.ev("asan runs");
    }
    c.sample(|| format!("asan {id}: {}", r.out.lines().find(|l| l.contains("evaluations=")).unwrap_or("")));
    c.seen(&(id, s));
}

/// a few operations of every kind under the undefined-behaviour interpreter
pub fn c30_miri(c: &mut Case) {
    let Some(p) = exe("CESR_MIRI") else { return };
    let b = base();
    let mut cmd = Command::new(&p);
    let n = if c.index % 2 == 0 {
        // alone: one variant of several kinds
        cmd.args(["one", &seed().to_string()]);
        let mut n = 0;
        for k in 0..8 {
            let i = (c.index / 2 * 8 + k) * 12 + c.index % 12;
            if i < b.total {
                cmd.arg(i.to_string());
                n += 1;
            }
        }
        if n == 0 {
            return;
        }
        n
    } else {
        cmd.args(["par", &seed().to_string(), "2", "2", &(c.index / 2 * 7).to_string(), &b.file]);
        4
    };
    let r = run(&mut cmd, Duration::from_secs(2400));
    if r.late {
        c.ev("miri runs cut short");
        return;
    }
    if c.index % 2 == 0 {
        for l in r.out.lines() {
            let i: usize = l.split('\t').next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            if let Some(w) = b.lines.get(i) {
                let name = l.split('\t').nth(1).unwrap_or("?");
                c.check(l == w, &format!("miri:result-differs:{name}"), || format!("interpreted {} compiled {}", clip(l), clip(w)));
                c.ev("miri operations compared");
            }
        }
    }
    judge(c, "miri", &r, &format!("case {}", c.index));
    c.sample(|| format!("miri: {n} operations: {}", clip(&r.out)));
    c.seen(&(c.index, "miri"));
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C30",
        rule: "monitor: every operation's result from a process that ran nothing else is compared with its result in long mixed histories, on 1 to 16 threads, from cold starts where all threads first use the same operation, and under a timer that interrupts each thread at arbitrary instructions every 20-160 microseconds, and while chosen threads run one machine instruction at a time (trap flag) so that every other thread overtakes them at every instruction; receivers and documents observed before and after; data races watched by ThreadSanitizer (standard library instrumented too), memory by AddressSanitizer under the other monitors' workloads, undefined behaviour by Miri (thorough)",
        sections: vec![
            sec("alone", 648, 1296, c30_alone),
            sec("history", 32, 400, c30_history),
            sec("cold", 324, 6000, c30_cold),
            sec("crowd", 24, 300, c30_crowd),
            sec("step", 108, 1080, c30_step),
            sec("held", 162, 648, c30_held),
            sec_serial("hammer", 54, 1080, c30_hammer),
            sec("marathon", 54, 54, c30_marathon),
            sec("tsan", 72, 1200, c30_tsan),
            sec("asan", 24, 96, c30_asan),
            sec("miri", 0, 24, c30_miri),
        ],
        require: vec![
            ("operations with a result", 100),
            ("history operations compared", 5_000),
            ("cold operations compared", 500),
            ("crowd operations compared", 1_000),
            ("hammer operations compared", 5_000),
            ("marathon operations compared", 5_000),
            ("interruptions", 2_000),
            ("step operations compared", 100),
            ("held operations compared", 300),
            ("instructions stepped", 50_000),
            ("tsan operations compared", 200),
            ("asan executions", 100),
        ],
        assumptions: vec![
            "interleavings are those the scheduler and the sanitizers' delays produced; none is enumerated",
            "ThreadSanitizer and AddressSanitizer see compiled Rust code, not the assembly inside the digest crates",
        ],
        termination: false,
    }]
}
