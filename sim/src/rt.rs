//! Simulation runtime: recorded choices, violations, event log, fault counters,
//! allocation tracking and the CPU-time watchdog.

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};

// ---------------------------------------------------------------- allocator

pub struct Counting;
static TRACK: AtomicBool = AtomicBool::new(false);
static MAX_REQ: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static HARD: AtomicUsize = AtomicUsize::new(usize::MAX);

fn note(n: usize) -> bool {
    if TRACK.load(Ordering::Relaxed) {
        MAX_REQ.fetch_max(n, Ordering::Relaxed);
        TOTAL.fetch_add(n, Ordering::Relaxed);
        return n <= HARD.load(Ordering::Relaxed);
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Largest single request and total bytes requested while `f` runs. Requests above 4 GB fail.
pub fn track_alloc<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    MAX_REQ.store(0, Ordering::Relaxed);
    TOTAL.store(0, Ordering::Relaxed);
    HARD.store(4 << 30, Ordering::Relaxed);
    TRACK.store(true, Ordering::Relaxed);
    let r = f();
    TRACK.store(false, Ordering::Relaxed);
    (r, MAX_REQ.load(Ordering::Relaxed), TOTAL.load(Ordering::Relaxed))
}

// ---------------------------------------------------------------- watchdog

extern "C" {
    fn clock() -> i64;
}
pub fn cpu_ms() -> i64 {
    unsafe { clock() / 1000 }
}
static RUN_START: AtomicI64 = AtomicI64::new(-1);
pub const HANG_MS: i64 = 60_000;

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let st = RUN_START.load(Ordering::SeqCst);
        if st >= 0 && cpu_ms() - st > HANG_MS {
            // Reported by exit status; the parent knows which run it was.
            std::process::exit(77);
        }
    });
}

// ---------------------------------------------------------------- prng

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
pub fn mix(z: u64) -> u64 {
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn h2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9E3779B97F4A7C15) ^ mix(b.wrapping_add(0x1234567)))
}
pub fn hstr(s: &str) -> u64 {
    hbytes(s.as_bytes())
}
pub fn hbytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---------------------------------------------------------------- context

enum Src {
    Gen { rng: Rng, forced: Vec<u64> },
    Replay { choices: Vec<u64>, pos: usize },
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

/// Panic payloads used by the harness itself.
struct StopRun(Violation);
struct Abandon;

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    src: Src,
    pub rec: Vec<u64>,
    dump: Option<std::fs::File>,
    pub hash: u64,
    pub want_trace: bool,
    pub trace: Vec<String>,
    /// Simulated time, milliseconds.
    pub now: u64,
    pub evals: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub foreign: BTreeMap<String, u64>,
    pub known: BTreeMap<&'static str, String>,
}

impl Ctx {
    pub fn gen(prop: &'static str, thorough: bool, seed: u64, forced: Vec<u64>) -> Self {
        Self::new(prop, thorough, Src::Gen { rng: Rng(mix(seed)), forced })
    }
    pub fn replay(prop: &'static str, thorough: bool, choices: Vec<u64>) -> Self {
        Self::new(prop, thorough, Src::Replay { choices, pos: 0 })
    }
    fn new(prop: &'static str, thorough: bool, src: Src) -> Self {
        let dump = std::env::var("SIM_DUMP").ok().and_then(|p| std::fs::File::create(p).ok());
        Ctx {
            prop,
            thorough,
            src,
            rec: Vec::new(),
            dump,
            hash: 0,
            want_trace: false,
            trace: Vec::new(),
            now: 0,
            evals: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: BTreeSet::new(),
            foreign: BTreeMap::new(),
            known: BTreeMap::new(),
        }
    }

    /// Every nondeterministic decision of a run: a number in `0..n`, 0 being the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: draw(0)");
        let at = self.rec.len();
        let v = match &mut self.src {
            Src::Gen { rng, forced } => {
                let r = rng.below(n);
                if at < forced.len() {
                    forced[at].min(n - 1)
                } else {
                    r
                }
            }
            Src::Replay { choices, pos } => {
                let v = choices.get(*pos).cloned().unwrap_or(0);
                *pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            let _ = writeln!(f, "{}", v);
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True in about `pct` of 100 cases; false is the simplest choice.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.draw(100) >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights; the first non-zero one is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let sum: u64 = w.iter().sum();
        let mut v = self.draw(sum);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    /// A generator for bulk data, itself one recorded choice.
    pub fn bulk(&mut self) -> Rng {
        Rng(mix(self.draw(1 << 32) ^ 0xB01D))
    }

    pub fn log(&mut self, s: String) {
        self.hash = h2(self.hash, hstr(&s));
        if self.want_trace && self.trace.len() < 4000 {
            self.trace.push(format!("t={}ms {}", self.now, s));
        }
    }
    pub fn mixin(&mut self, v: u64) {
        self.hash = h2(self.hash, v);
    }
    pub fn fault(&mut self, k: &'static str) {
        self.hash = h2(self.hash, hstr(k));
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 300 {
            self.states.insert(h);
        }
    }
    pub fn is(&self, p: &str) -> bool {
        self.prop == p
    }

    /// One evaluation of an oracle. `props` are the properties this oracle decides.
    pub fn check(&mut self, ok: bool, props: &[&str], class: &str, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            let m = msg();
            if props.contains(&self.prop) {
                self.violate(class, m);
            }
            *self.foreign.entry(format!("{:?} {}", props, class)).or_insert(0) += 1;
            self.log(format!("(other property) {}: {}", class, m));
        }
        ok
    }
    pub fn violate(&mut self, class: &str, msg: String) -> ! {
        self.log(format!("VIOLATION {}: {}", class, msg));
        panic::panic_any(StopRun(Violation { class: class.to_string(), msg }))
    }
    pub fn abandon(&mut self) -> ! {
        self.log("run abandoned".to_string());
        panic::panic_any(Abandon)
    }
    pub fn known(&mut self, id: &'static str, msg: String) {
        self.known.entry(id).or_insert(msg);
    }

    /// Code under test processing hostile input: a panic is a violation of C06 only and
    /// otherwise counts as a rejection.
    pub fn hostile<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(loc) => {
                self.check(false, &["C06"], "panic-on-hostile-input", || format!("{} panicked at {}", what, loc));
                None
            }
        }
    }
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Runs `f`, turning a panic of the code under test into its location; harness payloads pass through.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<StopRun>() || p.is::<Abandon>() {
                panic::resume_unwind(p)
            }
            TRACK.store(false, Ordering::Relaxed);
            Err(PANIC_AT.with(|c| c.borrow().clone()))
        }
    }
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let msg: String = msg.chars().take(160).map(|c| if c == '\n' || c == '\t' { ' ' } else { c }).collect();
        PANIC_AT.with(|c| *c.borrow_mut() = format!("{} {}", loc, msg));
    }));
}

pub enum Outcome {
    Ok,
    Abandoned,
    Violation(Violation),
}

/// Executes one run of a scenario.
pub fn run_one(ctx: &mut Ctx, f: &dyn Fn(&mut Ctx)) -> Outcome {
    RUN_START.store(cpu_ms(), Ordering::SeqCst);
    let r = panic::catch_unwind(AssertUnwindSafe(|| f(ctx)));
    RUN_START.store(-1, Ordering::SeqCst);
    TRACK.store(false, Ordering::Relaxed);
    match r {
        Ok(()) => Outcome::Ok,
        Err(p) => match p.downcast::<StopRun>() {
            Ok(s) => Outcome::Violation(s.0),
            Err(p) => {
                if p.is::<Abandon>() {
                    return Outcome::Abandoned;
                }
                // An unexpected panic while the code under test was used as documented.
                let at = PANIC_AT.with(|c| c.borrow().clone());
                ctx.log(format!("PANIC {}", at));
                let class: String = at.split(' ').next().unwrap_or("").to_string();
                Outcome::Violation(Violation { class: format!("panic:{}", class), msg: format!("panic in ordinary use at {}", at) })
            }
        },
    }
}
