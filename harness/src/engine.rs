//! Choice-sequence engine: every generated case is a pure function of a
//! sequence of small integers, so any case can be recorded, replayed and
//! shrunk as one value.

use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// SplitMix64: the only source of randomness, seeded from VERIF_SEED, the
/// property and the case index.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u32>),
}

/// Where generators draw their choices from. 0 is always the simplest choice.
pub struct Source {
    mode: Mode,
    pos: usize,
    /// Choices made so far.
    pub rec: Vec<u32>,
    /// Size hint, grows with the case index.
    pub size: u32,
    dump: Option<std::fs::File>,
}

impl Source {
    pub fn random(seed: u64, size: u32) -> Self {
        Self { mode: Mode::Random(Rng(seed)), pos: 0, rec: Vec::new(), size, dump: None }
    }

    pub fn replay(choices: Vec<u32>, size: u32) -> Self {
        Self { mode: Mode::Replay(choices), pos: 0, rec: Vec::new(), size, dump: None }
    }

    /// Also append every choice to a file as it is made (for cases that kill
    /// the process).
    pub fn dump_to(&mut self, f: std::fs::File) {
        self.dump = Some(f);
    }

    /// A choice in `0..n`.
    pub fn below(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(r) => (r.next() >> 11) as u32 % n,
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }

    pub fn index(&mut self, len: usize) -> usize {
        self.below(len as u32) as usize
    }

    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.index(xs.len())]
    }

    /// Weighted choice of an index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }

    /// A 32-bit choice.
    pub fn word(&mut self) -> u32 {
        let hi = self.below(1 << 16);
        let lo = self.below(1 << 16);
        (hi << 16) | lo
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.index(i + 1);
            xs.swap(i, j);
        }
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Cx {
    /// Human readable form of the case.
    pub desc: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Comparisons made with the oracle in this case.
    pub comparisons: u64,
    /// Whether the description is wanted (generators may skip it otherwise).
    pub fixed: Option<usize>,
}

impl Cx {
    /// Sets the description; also says it when asked, for cases that bring
    /// their process down.
    pub fn describe(&mut self, d: String) {
        if std::env::var_os("PV_SAY").is_some() {
            println!("case: {d}");
        }
        self.desc = d;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

pub type CaseFn = fn(&mut Source, &mut Cx) -> Result<(), String>;

pub enum Outcome {
    Pass,
    Fail(String),
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    crate::work::start_clock();
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let _call = crate::work::Call::enter();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// Key material for `RandomState` of threads started from now on.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);

/// std asks libc for the keys of its hash tables once per thread. Being the
/// definition the linker finds first, this makes iteration order a function of
/// the case.
///
/// # Safety
/// `buf` points to `len` writable bytes, as the C prototype demands.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng(HASH_SEED.load(Ordering::SeqCst) ^ 0xA5A5_0F0F_1234_8765);
    let mut i = 0;
    while i < len {
        let w = r.next().to_le_bytes();
        for b in w {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

/// Runs `f` on a thread of its own whose hash tables are keyed by `seed`.
pub fn with_hash_seed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> Result<R, String> {
    HASH_SEED.store(seed, Ordering::SeqCst);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                // draw this thread's keys now
                let _ = std::collections::hash_map::RandomState::new();
                catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
            })
            .expect("thread");
        match h.join() {
            Ok(r) => r,
            Err(_) => Err("thread died".into()),
        }
    })
}

/// Runs one case from its source. The first two choices are the hash seed.
pub fn run_case(f: CaseFn, src: &mut Source, cx: &mut Cx) -> Outcome {
    let seed = src.word() as u64;
    crate::work::reset();
    let r = with_hash_seed(seed, || f(src, cx));
    crate::work::stop();
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(p) => {
            own_panic(&p);
            Outcome::Fail(format!("panic: {p}"))
        }
    }
}

/// Exit status of a process whose case panicked in the harness itself.
pub const EXIT_OWN: i32 = 70;

/// Ends the process when the panic is the harness's and not the tested code's:
/// that is an error of the check and says nothing about the property.
pub fn own_panic(p: &str) {
    if p.starts_with("panicked at src/") && !p.contains("work budget exceeded") {
        eprintln!("error: the harness panicked: {p}");
        std::process::exit(EXIT_OWN);
    }
}

/// Shrinks a failing choice sequence. `fails` re-runs a candidate and returns
/// the choices it really made and the message, if it still fails.
pub fn shrink(
    mut best: Vec<u32>,
    mut msg: String,
    max_runs: usize,
    mut fails: impl FnMut(&[u32]) -> Option<(Vec<u32>, String)>,
) -> (Vec<u32>, String) {
    let mut runs = 0;
    let mut improved = true;
    // smaller = shorter, then lexicographically smaller
    let smaller = |a: &[u32], b: &[u32]| a.len() < b.len() || (a.len() == b.len() && a < b);
    while improved && runs < max_runs {
        improved = false;
        let mut try_ = |cand: Vec<u32>, best: &mut Vec<u32>, msg: &mut String, runs: &mut usize| -> bool {
            if *runs >= max_runs || cand == *best {
                return false;
            }
            *runs += 1;
            if let Some((rec, m)) = fails(&cand) {
                if smaller(&rec, best) {
                    *best = rec;
                    *msg = m;
                    return true;
                }
            }
            false
        };
        // delete chunks
        for chunk in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len().saturating_sub(chunk);
            loop {
                if i + chunk <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + chunk);
                    if try_(c, &mut best, &mut msg, &mut runs) {
                        improved = true;
                    }
                }
                if i == 0 || runs >= max_runs {
                    break;
                }
                i -= 1;
                i = i.min(best.len());
            }
        }
        // zero chunks, then lower single values
        for chunk in [8usize, 2] {
            let mut i = 0;
            while i + chunk <= best.len() && runs < max_runs {
                if best[i..i + chunk].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + chunk].fill(0);
                    improved |= try_(c, &mut best, &mut msg, &mut runs);
                }
                i += chunk;
            }
        }
        let mut i = 0;
        while i < best.len() && runs < max_runs {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    if try_(c, &mut best, &mut msg, &mut runs) {
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg)
}
