//! Case runner, random numbers and results.
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// A number below `n`.
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn u16(&mut self) -> u16 { self.next() as u16 }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    /// True once in `n`.
    pub fn one(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.usize(s.len())] }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() { let j = self.usize(i + 1); s.swap(i, j); }
    }
    /// A word, biased towards boundaries.
    pub fn word(&mut self) -> u16 {
        const B: &[u16] = &[
            0, 1, 2, 0x24, 0x25, 0x26, 0xFF, 0x100, 0x101, 0x102, 0x180, 0x1FF, 0x200, 0x2FFE, 0x2FFF, 0x3000, 0x3001,
            0x7FFF, 0x8000, 0xFDFE, 0xFDFF, 0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFFFC, 0xFFFE, 0xFFFF,
        ];
        match self.below(4) {
            0 => *self.pick(B),
            1 => (*self.pick(B)).wrapping_add(self.range(-4, 4) as u16),
            _ => self.u16(),
        }
    }
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    // FNV-1a (stable between runs)
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3); } }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    std::hash::Hasher::finish(&f)
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
static PANIC: Mutex<Option<String>> = Mutex::new(None);
static STEPS: AtomicU64 = AtomicU64::new(0);

/// Counts something done within a case (and tells the watchdog that the case makes progress).
pub fn tick() { STEPS.fetch_add(1, Ordering::Relaxed); }
pub fn ticks() -> u64 { STEPS.load(Ordering::Relaxed) }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => i.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap() = Some(format!("panicked at {at}: {m}"));
    }));
}
/// Runs code of the crate, turning a panic into an error.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.lock().unwrap().take().unwrap_or_else(|| "panicked".into()))
}

pub struct Violation { pub what: String, pub input: String, pub case: u64 }
pub struct Ctx {
    pub seed: u64,
    pub rng: Rng,
    pub thorough: bool,
    start: Instant,
    budget: Duration,
    pub evals: u64,
    seen: HashSet<u64>,
    pub rule: String,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    /// Finite spaces enumerated completely, with their sizes.
    pub exhausted: Vec<(String, u64)>,
    /// Stop at this case and print it.
    pub only: Option<u64>,
}
impl Ctx {
    pub fn new(seed: u64, budget: f64, thorough: bool, only: Option<u64>) -> Self {
        Ctx {
            seed, rng: Rng::new(seed), thorough, start: Instant::now(), budget: Duration::from_secs_f64(budget),
            evals: 0, seen: HashSet::new(), rule: String::new(), samples: vec![], violations: vec![], known: vec![], exhausted: vec![], only,
        }
    }
    /// Whether to go on.
    pub fn go(&self) -> bool { self.ok() && self.start.elapsed() < self.budget }
    /// Whether to go on, within the given part of the budget.
    pub fn go_until(&self, part: f64) -> bool { self.ok() && self.start.elapsed() < self.budget.mul_f64(part) }
    pub fn ok(&self) -> bool { self.violations.is_empty() }
    pub fn distinct(&self) -> u64 { self.seen.len() as u64 }
    pub fn exhaust(&mut self, what: &str, n: u64) { if self.ok() { self.exhausted.push((what.into(), n)); } }

    /// Runs a case. `f` gives `Ok(Some(key))` for a non-trivial case (counted once per key).
    pub fn case(&mut self, desc: &dyn Fn() -> String, f: impl FnOnce() -> Result<Option<u64>, String>) -> bool {
        let n = self.evals;
        self.evals += 1;
        PROGRESS.store(n + 1, Ordering::Relaxed);
        if self.only == Some(n) {
            println!("case {n}:\n{}", desc());
            *CURRENT.lock().unwrap() = desc();
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(PANIC.lock().unwrap().take().unwrap_or_else(|| "panicked".into())),
        };
        match r {
            Ok(k) => {
                if let Some(k) = k {
                    let new = self.seen.len() < 20_000_000 && self.seen.insert(k);
                    if new && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals.is_power_of_two())) {
                        let mut s = desc();
                        if s.len() > 600 { let mut e = 600; while !s.is_char_boundary(e) { e -= 1; } s.truncate(e); s.push_str("..."); }
                        self.samples.push(s);
                    }
                }
                true
            },
            Err(what) => {
                self.violations.push(Violation { what, input: desc(), case: n });
                false
            }
        }
    }
    pub fn known(&mut self, what: impl Into<String>) { let w = what.into(); if !self.known.contains(&w) { self.known.push(w); } }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
