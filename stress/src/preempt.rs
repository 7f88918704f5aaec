//! Interrupts a thread at arbitrary instructions: a timer per thread sends it a signal every few tens of
//! microseconds, and the handler gives the processor away or sleeps for a moment.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::Relaxed};

static N: AtomicU64 = AtomicU64::new(0);

extern "C" fn interrupted(_: libc::c_int) {
    let n = N.fetch_add(1, Relaxed);
    let x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
    // SAFETY: both calls may be made in a signal handler; errno is put back
    unsafe {
        let errno = *libc::__errno_location();
        if x % 4 == 0 {
            let t = libc::timespec { tv_sec: 0, tv_nsec: (x % 120_000) as _ };
            libc::nanosleep(&t, std::ptr::null_mut());
        } else {
            libc::sched_yield();
        }
        *libc::__errno_location() = errno;
    }
}

pub fn count() -> u64 {
    N.load(Relaxed)
}

fn signal() -> libc::c_int {
    libc::SIGRTMIN() + 3
}

pub fn install() {
    // SAFETY: the action is fully initialised and the handler only makes calls allowed there
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = interrupted as extern "C" fn(libc::c_int) as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigemptyset(&mut a.sa_mask);
        assert_eq!(libc::sigaction(signal(), &a, std::ptr::null_mut()), 0);
    }
}

pub struct Timer(libc::timer_t);

/// the calling thread is interrupted every `nanos` from now until the timer is dropped
pub fn start(nanos: i64) -> Timer {
    // SAFETY: the structures are fully initialised and live through the calls
    unsafe {
        let mut e: libc::sigevent = std::mem::zeroed();
        e.sigev_notify = libc::SIGEV_THREAD_ID;
        e.sigev_signo = signal();
        e.sigev_notify_thread_id = libc::syscall(libc::SYS_gettid) as _;
        let mut t: libc::timer_t = std::mem::zeroed();
        assert_eq!(libc::timer_create(libc::CLOCK_MONOTONIC, &mut e, &mut t), 0);
        let p = libc::timespec { tv_sec: 0, tv_nsec: nanos as _ };
        let spec = libc::itimerspec { it_interval: p, it_value: p };
        assert_eq!(libc::timer_settime(t, 0, &spec, std::ptr::null_mut()), 0);
        Timer(t)
    }
}

impl Drop for Timer {
    fn drop(&mut self) {
        // SAFETY: created by `start`, deleted once
        unsafe {
            libc::timer_delete(self.0);
        }
    }
}

// ---------------------------------------------------------------- instruction by instruction

/// the counters of this file that threads share; kept together so that they can be left out when the program's
/// static memory is compared
#[repr(align(64))]
struct Shared {
    over: AtomicBool,
    stepped: AtomicU64,
    progress: AtomicU64,
    released: AtomicBool,
    writes: AtomicU64,
    stalls: AtomicU64,
    copy: AtomicPtr<u8>,
}

static S: Shared = Shared {
    over: AtomicBool::new(false),
    stepped: AtomicU64::new(0),
    progress: AtomicU64::new(0),
    released: AtomicBool::new(false),
    writes: AtomicU64::new(0),
    stalls: AtomicU64::new(0),
    copy: AtomicPtr::new(std::ptr::null_mut()),
};

#[derive(Clone, Copy)]
enum Plan {
    /// a short sleep now and then
    Walk,
    /// held after the n-th write to static memory until other threads have run operations
    Write(u64),
    /// held shortly after instructions that refer to static memory
    Refer,
}

thread_local! {
    static LEFT: Cell<i64> = const { Cell::new(0) };
    static PLAN: Cell<Plan> = const { Cell::new(Plan::Walk) };
    static LAST: Cell<usize> = const { Cell::new(0) };
    static SOON: Cell<i32> = const { Cell::new(-1) };
}

/// the trap flag: the processor raises a trap after every instruction
const TRAP: i64 = 0x100;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// the program's writable static memory, without the counters above: two ranges
fn statics() -> [(*const u8, usize); 2] {
    // the linker defines both symbols; only their addresses are used
    let (a, z) = (&raw const __data_start, &raw const _end);
    let (b, n) = (&raw const S as *const u8, std::mem::size_of::<Shared>());
    let m = b.wrapping_add(n);
    assert!(a <= b && m <= z);
    [(a, b as usize - a as usize), (m, z as usize - m as usize)]
}

/// whether the static memory changed since the last call
fn changed() -> bool {
    let mut copy = S.copy.load(Relaxed);
    if copy.is_null() {
        return false;
    }
    let mut any = false;
    for (p, n) in statics() {
        // SAFETY: both ranges are `n` bytes of mapped memory; no other thread writes there before the release
        unsafe {
            if libc::memcmp(p.cast(), copy.cast(), n) != 0 {
                libc::memcpy(copy.cast(), p.cast(), n);
                any = true;
            }
            copy = copy.add(n);
        }
    }
    any
}

/// whether the instruction from `from` to `to` names an address in static memory
fn refers(from: usize, to: usize) -> bool {
    let n = to.wrapping_sub(from);
    if !(5..=15).contains(&n) {
        return false;
    }
    let (a, z) = (&raw const __data_start as usize, &raw const _end as usize);
    (1..=n - 4).any(|i| {
        // SAFETY: these bytes were just executed
        let d = unsafe { std::ptr::read_unaligned((from + i) as *const i32) };
        (a..z).contains(&to.wrapping_add(d as isize as usize))
    })
}

/// the calling thread waits until others have done `n` operations, or for a while
fn hold(n: u64, naps: u32) {
    S.stalls.fetch_add(1, Relaxed);
    let until = S.progress.load(Relaxed) + n;
    for _ in 0..naps {
        if S.progress.load(Relaxed) >= until || S.over.load(Relaxed) {
            break;
        }
        let t = libc::timespec { tv_sec: 0, tv_nsec: 20_000 };
        // SAFETY: may be called in a signal handler
        unsafe { libc::nanosleep(&t, std::ptr::null_mut()) };
    }
}

extern "C" fn trapped(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    // SAFETY: the kernel passes the interrupted thread's context
    let regs = unsafe { &mut (*(context as *mut libc::ucontext_t)).uc_mcontext.gregs };
    let n = S.stepped.fetch_add(1, Relaxed);
    let x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
    let left = LEFT.get();
    LEFT.set(left - 1);
    if left <= 0 || S.over.load(Relaxed) {
        regs[libc::REG_EFL as usize] &= !TRAP;
        return;
    }
    // SAFETY: errno is put back
    let errno = unsafe { *libc::__errno_location() };
    match PLAN.get() {
        Plan::Walk => {
            if x % 400 == 0 {
                hold(1, 1);
            }
        }
        Plan::Write(which) => {
            if changed() && S.writes.fetch_add(1, Relaxed) == which {
                S.released.store(true, Relaxed);
                hold(8, 1000);
                LEFT.set(0);
            }
        }
        Plan::Refer => {
            let rip = regs[libc::REG_RIP as usize] as usize;
            if SOON.get() < 0 && refers(LAST.get(), rip) {
                SOON.set((x % 4) as i32);
            }
            LAST.set(rip);
            if SOON.get() >= 0 {
                if SOON.get() == 0 {
                    hold(1 + x / 4 % 8, 20);
                }
                SOON.set(SOON.get() - 1);
            }
        }
    }
    // SAFETY: as above
    unsafe { *libc::__errno_location() = errno };
}

extern "C" fn begin_at(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    if LEFT.get() > 0 {
        // SAFETY: the kernel passes the interrupted thread's context
        unsafe { (*(context as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= TRAP };
    }
}

fn action(signal: libc::c_int, f: extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void)) {
    // SAFETY: the action is fully initialised and the handler only makes calls allowed there
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = f as usize;
        a.sa_flags = libc::SA_RESTART | libc::SA_SIGINFO;
        libc::sigfillset(&mut a.sa_mask);
        assert_eq!(libc::sigaction(signal, &a, std::ptr::null_mut()), 0);
    }
}

pub fn install_stepping() {
    action(libc::SIGTRAP, trapped);
    action(signal(), begin_at);
}

/// the calling thread runs its next `n` instructions one at a time
fn step_from_here(n: i64) {
    LEFT.set(n);
    // SAFETY: the flag only makes the processor trap, which `trapped` handles
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}

/// the calling thread runs its next `n` instructions one at a time, now and then losing the processor
pub fn walk(n: i64) {
    PLAN.set(Plan::Walk);
    step_from_here(n);
}

/// the calling thread runs its next `n` instructions one at a time; when static memory has changed for the
/// `which`-th time, the other threads are released and run operations before it goes on
pub fn hold_after_write(which: u64, n: i64) {
    let bytes: usize = statics().iter().map(|x| x.1).sum();
    S.copy.store(Box::leak(vec![0u8; bytes].into_boxed_slice()).as_mut_ptr(), Relaxed);
    changed();
    PLAN.set(Plan::Write(which));
    step_from_here(n);
}

/// the calling thread runs `n` instructions one at a time from the moment its timer next interrupts it, held
/// after some of those that refer to static memory
pub fn allow(n: i64) {
    PLAN.set(Plan::Refer);
    LEFT.set(n);
}

pub fn end() {
    LEFT.set(0);
}

pub fn left() -> i64 {
    LEFT.get()
}

pub fn stop() {
    S.over.store(true, Relaxed);
}

pub fn stepped() -> u64 {
    S.stepped.load(Relaxed)
}

pub fn stalls() -> u64 {
    S.stalls.load(Relaxed)
}

pub fn done_one() {
    S.progress.fetch_add(1, Relaxed);
}

/// lets the other threads go
pub fn release() {
    S.released.store(true, Relaxed);
}

pub fn released() -> bool {
    S.released.load(Relaxed)
}
