//! cesr-stress one SEED I...            result of each operation, in this process
//! cesr-stress list                     number of operations
//! cesr-stress par SEED T N ORDER FILE  T threads, each running N operations of the history ORDER
//!                                      from a cold start, compared with the results in FILE
//! cesr-stress hammer SEED T MS KIND OTHER FILE   T threads repeating operations of KIND (and some of
//!                                      OTHER) for MS milliseconds while each is interrupted at random
//!                                      points, so that a step between two others is often the last for a while
//! cesr-stress step SEED T MODE KIND OTHER FILE SALT   MODE 0: T threads run their first operation of KIND
//!                                      instruction by instruction from a cold start; MODE 1: one thread does
//!                                      from random points while the others repeat KIND at full speed
mod ops;
mod preempt;
use ops::R;
use std::sync::{Arc, Barrier, Mutex};

fn clip(s: &str) -> String {
    s.chars().take(700).collect::<String>().replace('\n', "\\n")
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    match a.first().map(|s| s.as_str()) {
        Some("list") => println!("{} {}", ops::count(), ops::VARIANTS),
        Some("one") => {
            let t = ops::table();
            for i in 2..a.len() {
                println!("{}\t{}\t{}", num(i), ops::name(num(i)), ops::run(&t, num(1), num(i)));
            }
        }
        Some("hammer") => hammer(num(1), num(2) as usize, num(3), num(4), num(5), &a[6]),
        Some("step") => step(num(1), num(2) as usize, num(3), num(4), num(5), &a[6], num(7)),
        Some("par") => par(num(1), num(2) as usize, num(3), num(4), a.get(5).map(|s| s.as_str())),
        _ => std::process::exit(2),
    }
}

/// the operations thread `th` runs, in order: `ORDER` decides. Every thread starts with the same kind.
fn plan(seed: u64, order: u64, th: usize, n: u64, total: u64) -> Vec<u64> {
    let mut first = R(order ^ seed.rotate_left(20));
    let kinds = total / ops::VARIANTS;
    let kind = order % kinds;
    let mut r = R(first.next() ^ (th as u64 + 1).wrapping_mul(0x9E37_79B9));
    let same = order / kinds % 2 == 0;
    (0..n)
        .map(|i| {
            if i < 4 {
                kind * ops::VARIANTS + if same { i } else { r.below(ops::VARIANTS as usize) as u64 }
            } else {
                r.below(total as usize) as u64
            }
        })
        .collect()
}

fn par(seed: u64, threads: usize, n: u64, order: u64, file: Option<&str>) {
    let base: Option<Arc<Vec<String>>> = file.map(|f| {
        let t = std::fs::read_to_string(f).expect("baseline");
        Arc::new(t.lines().map(|l| l.splitn(3, '\t').nth(2).unwrap_or("").to_string()).collect())
    });
    let total = ops::count();
    let gate = Arc::new(Barrier::new(threads));
    let bad = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    let interrupted = std::env::var_os("CESR_PREEMPT").is_some();
    if interrupted {
        preempt::install();
    }
    for th in 0..threads {
        let (gate, base, bad) = (gate.clone(), base.clone(), bad.clone());
        hs.push(std::thread::spawn(move || {
            let plan = plan(seed, order, th, n, total);
            let t = ops::table();
            gate.wait();
            let _timer = interrupted.then(|| preempt::start(20_000 + (order >> 3) as i64 % 90_000 + 700 * th as i64));
            let mut seen: Vec<(u64, String)> = vec![];
            let mut done = 0u64;
            // on a busy machine a run ends early
            let last = std::time::Instant::now() + std::time::Duration::from_secs(25);
            for (step, i) in plan.iter().enumerate() {
                if std::time::Instant::now() > last {
                    break;
                }
                done += 1;
                let got = ops::run(&t, seed, *i);
                match &base {
                    Some(b) => {
                        if b[*i as usize] != got {
                            bad.lock().unwrap().push(format!("MISMATCH kind={} op={i} thread={th} step={step} got: {} alone: {}", ops::name(*i), clip(&got), clip(&b[*i as usize])));
                        }
                    }
                    None => seen.push((*i, got)),
                }
            }
            (done, seen)
        }));
    }
    let mut all: std::collections::BTreeMap<u64, String> = Default::default();
    let mut ran = 0u64;
    for h in hs {
        match h.join() {
            Ok((done, seen)) => {
                ran += done;
                for (i, g) in seen {
                    if let Some(p) = all.insert(i, g.clone()) {
                        if p != g {
                            bad.lock().unwrap().push(format!("MISMATCH kind={} op={i} between threads: {} and {}", ops::name(i), clip(&p), clip(&g)));
                        }
                    }
                }
            }
            Err(_) => bad.lock().unwrap().push("MISMATCH kind=thread a thread panicked".into()),
        }
    }
    let bad = bad.lock().unwrap();
    for b in bad.iter().take(5) {
        println!("{b}");
    }
    println!("DONE threads={threads} operations={ran} mismatches={}", bad.len());
    if !bad.is_empty() {
        std::process::exit(3);
    }
}

fn hammer(seed: u64, threads: usize, ms: u64, kind: u64, other: u64, file: &str) {
    let t = std::fs::read_to_string(file).expect("baseline");
    let base: Vec<String> = t.lines().map(|l| l.splitn(3, '\t').nth(2).unwrap_or("").to_string()).collect();
    let bad = Mutex::new(vec![]);
    let ran = std::sync::atomic::AtomicU64::new(0);
    let gate = Barrier::new(threads);
    preempt::install();
    std::thread::scope(|s| {
        for th in 0..threads {
            let (base, bad, ran, gate) = (&base, &bad, &ran, &gate);
            s.spawn(move || {
                let t = ops::table();
                let mut r = R(seed ^ (th as u64 + 1).wrapping_mul(0x9E37_79B9) ^ kind << 32);
                let mut n = 0u64;
                gate.wait();
                let _timer = (threads > 1).then(|| preempt::start(40_000 + r.below(120_000) as i64));
                let begun = std::time::Instant::now();
                let end = begun + std::time::Duration::from_millis(ms);
                let last = begun + std::time::Duration::from_secs(4);
                while std::time::Instant::now() < if n < 24 { last } else { end } {
                    let k = if r.below(8) == 0 { other } else { kind };
                    let i = k * ops::VARIANTS + r.below(ops::VARIANTS as usize) as u64;
                    let got = ops::run(&t, seed, i);
                    n += 1;
                    if base[i as usize] != got {
                        let mut b = bad.lock().unwrap();
                        b.push(format!("MISMATCH kind={} op={i} thread={th} step={n} got: {} alone: {}", ops::name(i), clip(&got), clip(&base[i as usize])));
                        if b.len() > 20 {
                            break;
                        }
                    }
                }
                ran.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    for b in bad.iter().take(5) {
        println!("{b}");
    }
    println!("DONE threads={threads} operations={} interruptions={} mismatches={}", ran.into_inner(), preempt::count(), bad.len());
    if !bad.is_empty() {
        std::process::exit(3);
    }
}

fn step(seed: u64, threads: usize, mode: u64, kind: u64, other: u64, file: &str, salt: u64) {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    let t = std::fs::read_to_string(file).expect("baseline");
    let base: Vec<String> = t.lines().map(|l| l.splitn(3, '\t').nth(2).unwrap_or("").to_string()).collect();
    let bad = Mutex::new(vec![]);
    let ran = AtomicU64::new(0);
    let over = AtomicBool::new(false);
    let ready = AtomicU64::new(0);
    let held = AtomicBool::new(false);
    let gate = Barrier::new(threads);
    preempt::install_stepping();
    let begun = std::time::Instant::now();
    std::thread::scope(|s| {
        for th in 0..threads {
            let (base, bad, ran, gate, over, ready) = (&base, &bad, &ran, &gate, &over, &ready);
            let held = &held;
            s.spawn(move || {
                let t = ops::table();
                let mut r = R(seed ^ (th as u64 + 1).wrapping_mul(0x9E37_79B9) ^ kind << 32 ^ mode << 60 ^ salt << 40);
                let mut n = 0u64;
                let judge = |i: u64, got: String, n: u64| {
                    if base[i as usize] != got {
                        let mut b = bad.lock().unwrap();
                        if b.len() < 20 {
                            b.push(format!("MISMATCH kind={} op={i} thread={th} step={n} got: {} alone: {}", ops::name(i), clip(&got), clip(&base[i as usize])));
                        }
                    }
                };
                gate.wait();
                if mode == 2 {
                    if th == 0 {
                        let i = kind * ops::VARIANTS + other;
                        preempt::hold_after_write(salt, 60_000);
                        let got = ops::run(&t, seed, i);
                        preempt::end();
                        held.store(preempt::released(), Relaxed);
                        preempt::release();
                        judge(i, got, 0);
                        n += 1;
                    } else {
                        while !preempt::released() {
                            std::thread::yield_now();
                        }
                        for k in 0..ops::VARIANTS {
                            let i = kind * ops::VARIANTS + (other + k) % ops::VARIANTS;
                            let got = ops::run(&t, seed, i);
                            preempt::done_one();
                            judge(i, got, n);
                            n += 1;
                        }
                    }
                    ran.fetch_add(n, Relaxed);
                    return;
                }
                // all at the same moment
                ready.fetch_add(1, Relaxed);
                while ready.load(Relaxed) < threads as u64 && begun.elapsed() < std::time::Duration::from_secs(2) {
                    std::hint::spin_loop();
                }
                if mode == 0 {
                    preempt::walk(30_000);
                    let i = kind * ops::VARIANTS + if salt % 2 == 0 { (salt / 2 + th as u64) % ops::VARIANTS } else { salt / 2 % ops::VARIANTS };
                    let got = ops::run(&t, seed, i);
                    preempt::end();
                    judge(i, got, 0);
                    n += 1;
                } else if th == 0 {
                    let _timer = preempt::start(50_000 + r.below(400_000) as i64);
                    while preempt::stepped() < 24_000 && begun.elapsed() < std::time::Duration::from_secs(2) {
                        if preempt::left() <= 0 {
                            preempt::allow(3_000);
                        }
                        let i = kind * ops::VARIANTS + r.below(ops::VARIANTS as usize) as u64;
                        let got = ops::run(&t, seed, i);
                        judge(i, got, n);
                        n += 1;
                    }
                    over.store(true, Relaxed);
                } else {
                    while !over.load(Relaxed) {
                        if begun.elapsed() > std::time::Duration::from_secs(5) {
                            preempt::stop();
                        }
                        let k = if mode == 1 && r.below(8) == 0 { other } else { kind };
                        let i = k * ops::VARIANTS + r.below(ops::VARIANTS as usize) as u64;
                        let got = ops::run(&t, seed, i);
                        preempt::done_one();
                        judge(i, got, n);
                        n += 1;
                    }
                }
                ran.fetch_add(n, Relaxed);
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    for b in bad.iter().take(5) {
        println!("{b}");
    }
    println!("DONE threads={threads} operations={} stepped={} held={} stalls={} mismatches={}", ran.into_inner(), preempt::stepped(), held.into_inner(), preempt::stalls(), bad.len());
    if !bad.is_empty() {
        std::process::exit(3);
    }
}
