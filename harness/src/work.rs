//! Deterministic measure of the work the code under test does for a case:
//! allocations, probes (calls of the harness's own Hash/Eq implementations) and,
//! in the build that has the instrumentation, steps (blocks of compiled code).
//! What the harness does itself, outside of `guarded`, is not counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

pub struct Counting;

/// How many calls of the code under test are going on.
static CALLS: AtomicU32 = AtomicU32::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static PROBES: AtomicU64 = AtomicU64::new(0);
static PROBE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

/// Exit status of a worker whose case went over the allocation budget.
pub const EXIT_BUDGET: i32 = 77;
/// Live heap at which a case counts as running away.
const LIVE_LIMIT: u64 = 1 << 30;
/// Default budget of a case, in allocations. The costliest generated case on
/// the unchanged tree stays far below it.
pub const DEFAULT_LIMIT: u64 = 500_000_000;
pub const DEFAULT_PROBES: u64 = 1_000_000_000;
pub const DEFAULT_STEPS: u64 = 40_000_000_000;

/// Exit status of a worker whose case spent very long in the code under test.
/// Time decides nothing: the parent runs the case again in the build that counts
/// steps, and the budget of steps decides.
pub const EXIT_SLOW: i32 = 78;
const SLOW_SECONDS: u32 = 45;
/// Unless another budget will be used up within this time.
const LATE_SECONDS: u32 = 150;
/// Exit status of a worker that spent very long in the harness.
const EXIT_STUCK: i32 = 79;
const STUCK_SECONDS: u32 = 220;
static SLOW: AtomicU32 = AtomicU32::new(0);
static STUCK: AtomicU32 = AtomicU32::new(0);

#[repr(C)]
struct Interval {
    every: [i64; 2],
    first: [i64; 2],
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn signal(number: i32, handler: extern "C" fn(i32)) -> usize;
    fn setitimer(which: i32, new: *const Interval, old: *mut Interval) -> i32;
}

/// Called once per second of processor time.
extern "C" fn tick(_: i32) {
    let (count, most, code) = match CALLS.load(Relaxed) {
        0 => (&STUCK, STUCK_SECONDS, EXIT_STUCK),
        _ => (&SLOW, SLOW_SECONDS, EXIT_SLOW),
    };
    let n = count.fetch_add(1, Relaxed);
    if n >= most && !(code == EXIT_SLOW && n < LATE_SECONDS && on_its_way(n)) {
        unsafe { _exit(code) }
    }
}

/// Whether the budget of allocations or probes will be used up soon anyway, at
/// the pace of the first `n` seconds.
fn on_its_way(n: u32) -> bool {
    let soon = |used: &AtomicU64, limit: &AtomicU64| {
        let (used, limit) = (used.load(Relaxed), limit.load(Relaxed));
        limit != u64::MAX && (used as f64) * LATE_SECONDS as f64 > (limit as f64) * n as f64
    };
    soon(&ALLOCS, &LIMIT) || soon(&PROBES, &PROBE_LIMIT)
}

/// Starts the clock, except where steps are counted.
pub fn start_clock() {
    const ITIMER_PROF: i32 = 2;
    const SIGPROF: i32 = 27;
    if std::env::var_os("PV_NO_CLOCK").is_none() {
        let v = Interval { every: [1, 0], first: [1, 0] };
        unsafe {
            signal(SIGPROF, tick);
            setitimer(ITIMER_PROF, &v, std::ptr::null_mut());
        }
    }
}

/// Marks a call of the code under test, until dropped.
pub struct Call;

impl Call {
    pub fn enter() -> Call {
        CALLS.fetch_add(1, Relaxed);
        Call
    }
}

impl Drop for Call {
    fn drop(&mut self) {
        CALLS.fetch_sub(1, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size() as u64, Relaxed);
        if CALLS.load(Relaxed) > 0 {
            let n = ALLOCS.fetch_add(1, Relaxed);
            let limit = LIMIT.load(Relaxed);
            if limit != u64::MAX && (n > limit || live > LIVE_LIMIT) {
                _exit(EXIT_BUDGET);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
}

pub fn reset() {
    ALLOCS.store(0, Relaxed);
    LIMIT.store(DEFAULT_LIMIT, Relaxed);
    PROBES.store(0, Relaxed);
    PROBE_LIMIT.store(DEFAULT_PROBES, Relaxed);
    STEPS.store(0, Relaxed);
    default_steps();
    SLOW.store(0, Relaxed);
    STUCK.store(0, Relaxed);
}

pub fn stop() {
    LIMIT.store(u64::MAX, Relaxed);
    PROBE_LIMIT.store(u64::MAX, Relaxed);
    STEP_LIMIT.store(u64::MAX, Relaxed);
}

pub fn allocs() -> u64 {
    ALLOCS.load(Relaxed)
}

/// Budget of `n` further allocations for the code that follows.
pub fn limit_allocs(n: u64) {
    LIMIT.store(allocs() + n, Relaxed);
}

pub fn default_allocs() {
    LIMIT.store(DEFAULT_LIMIT.max(allocs() + DEFAULT_LIMIT), Relaxed);
}

pub fn probe() {
    let n = PROBES.fetch_add(1, Relaxed);
    if n > PROBE_LIMIT.load(Relaxed) {
        PROBE_LIMIT.store(u64::MAX, Relaxed);
        panic!("work budget exceeded (terminal probes)");
    }
}

pub fn probes() -> u64 {
    PROBES.load(Relaxed)
}

pub fn limit_probes(n: u64) {
    PROBE_LIMIT.store(probes() + n, Relaxed);
}

pub fn default_probes() {
    PROBE_LIMIT.store(probes() + DEFAULT_PROBES, Relaxed);
}

/// Called at every block of instrumented code (the pass leaves functions of
/// this prefix alone).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if CALLS.load(Relaxed) > 0 {
        let n = STEPS.load(Relaxed) + 1;
        STEPS.store(n, Relaxed);
        if n > STEP_LIMIT.load(Relaxed) {
            unsafe { _exit(EXIT_BUDGET) }
        }
    }
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

pub fn limit_steps(n: u64) {
    STEP_LIMIT.store(steps() + n, Relaxed);
}

pub fn default_steps() {
    let n = std::env::var("PV_STEPS").ok().and_then(|x| x.parse().ok()).unwrap_or(DEFAULT_STEPS);
    STEP_LIMIT.store(steps() + n, Relaxed);
}
