//! Simulation core: the choice tape, the event log, and fault accounting.
//!
//! A `Ctx` is one execution. Everything that is not determined by the code
//! under test is decided by `Ctx::draw()` or `Ctx::fault()` and recorded on the
//! tape. Re-running with the same tape repeats the execution exactly.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Write as _;

/// SplitMix64: small, seedable, no global state.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(mix(seed ^ 0x5bd1e995))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
}

/// How fault decisions are taken.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Faults {
    /// Never fire (fault-free configuration).
    Off,
    /// Fire with the probability given by the workload profile.
    Random,
    /// Fire exactly at the n-th opportunity (single-fault enumeration).
    At(u64),
}

enum Source {
    Rng(Rng),
    Tape(Vec<u64>),
}

/// A failed oracle.
#[derive(Clone, Debug)]
pub struct Fail(pub String);

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::core::Fail(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::core::Fail(format!($($t)*))); } };
}

pub struct Ctx {
    source: RefCell<Source>,
    faults: Faults,
    tape: RefCell<Vec<u64>>,
    pos: Cell<usize>,
    hash: Cell<u64>,
    trace: Option<RefCell<Vec<String>>>,
    spill: Option<RefCell<std::fs::File>>,
    pub ticks: Cell<u64>,
    budget: u64,
    fault_points: Cell<u64>,
    fired: RefCell<BTreeMap<&'static str, u64>>,
    probes: RefCell<BTreeMap<&'static str, u64>>,
    states: RefCell<Vec<u64>>,
    note: RefCell<String>,
    explode: Cell<bool>,
}

/// Payload of a panic raised by the simulated environment.
pub struct Exploded;

pub struct Outcome {
    pub hash: u64,
    pub ticks: u64,
    pub fault_points: u64,
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
    pub note: String,
    pub fail: Option<String>,
}

pub const BUDGET_MSG: &str = "seam-call budget exhausted";

impl Ctx {
    pub fn from_seed(seed: u64, faults: Faults, trace: bool, spill: Option<std::fs::File>) -> Self {
        Self::with(Source::Rng(Rng::new(seed)), faults, trace, spill)
    }

    pub fn from_tape(tape: Vec<u64>, trace: bool) -> Self {
        Self::with(Source::Tape(tape), Faults::Random, trace, None)
    }

    fn with(source: Source, faults: Faults, trace: bool, spill: Option<std::fs::File>) -> Self {
        Self {
            source: RefCell::new(source),
            faults,
            tape: RefCell::new(Vec::new()),
            pos: Cell::new(0),
            hash: Cell::new(0xcbf29ce484222325),
            trace: trace.then(|| RefCell::new(Vec::new())),
            spill: spill.map(RefCell::new),
            ticks: Cell::new(0),
            budget: 2_000_000,
            fault_points: Cell::new(0),
            fired: Default::default(),
            probes: Default::default(),
            states: Default::default(),
            note: Default::default(),
            explode: Cell::new(false),
        }
    }

    /// What a fresh execution must be fed to repeat this one so far.
    pub fn taken(&self) -> Vec<u64> {
        self.tape.borrow().clone()
    }

    pub fn finish(self, fail: Option<String>) -> Outcome {
        let mut states = self.states.into_inner();
        states.sort_unstable();
        states.dedup();
        Outcome {
            hash: mix(self.hash.get()),
            ticks: self.ticks.get(),
            fault_points: self.fault_points.get(),
            fired: self.fired.into_inner(),
            probes: self.probes.into_inner(),
            states,
            tape: self.tape.into_inner(),
            trace: self.trace.map(|v| v.into_inner()).unwrap_or_default(),
            note: self.note.into_inner(),
            fail,
        }
    }

    fn record(&self, v: u64) {
        crate::heap::quiet(|| self.tape.borrow_mut().push(v));
        if let Some(f) = &self.spill {
            let _ = f.borrow_mut().write_all(&v.to_le_bytes());
        }
        if self.tape.borrow().len() as u64 > self.budget {
            panic!("{BUDGET_MSG} (choices)");
        }
    }

    /// Take one decision in `0..n`. `0` is always the simplest choice.
    pub fn draw(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut *self.source.borrow_mut() {
            Source::Rng(rng) => ((rng.next() as u128 * n as u128) >> 64) as u64,
            Source::Tape(t) => {
                let p = self.pos.get();
                self.pos.set(p + 1);
                t.get(p).copied().unwrap_or(0).min(n - 1)
            }
        };
        self.record(v);
        v
    }

    pub fn below(&self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// A value in `lo..=hi`.
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }

    pub fn u64(&self) -> u64 {
        // Full-range value in two draws, keeps the tape shrinkable.
        (self.draw(1 << 32) << 32) | self.draw(1 << 32)
    }

    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    /// Weighted choice of an index; index 0 should be the simplest.
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }

    /// A size biased to small values, but reaching up to `max`.
    pub fn size(&self, max: usize) -> usize {
        match self.draw(4) {
            0 => self.range(0, max.min(3)),
            1 => self.range(0, max.min(9)),
            2 => self.range(0, max.min(40)),
            _ => self.range(0, max),
        }
    }

    pub fn bytes(&self, n: usize) -> Vec<u8> {
        // Cheap: one draw selects a generator for the whole block.
        let s = self.draw(1 << 32);
        if s == 0 {
            return vec![0; n];
        }
        let mut rng = Rng::new(s);
        (0..n).map(|_| rng.next() as u8).collect()
    }

    /// An opportunity for a fault. Returns whether it fires now.
    pub fn fault(&self, kind: &'static str, num: u64, den: u64) -> bool {
        let k = self.fault_points.get();
        self.fault_points.set(k + 1);
        let fire = match &mut *self.source.borrow_mut() {
            Source::Tape(t) => {
                let p = self.pos.get();
                self.pos.set(p + 1);
                t.get(p).copied().unwrap_or(0) != 0
            }
            Source::Rng(rng) => match self.faults {
                Faults::Off => false,
                Faults::Random => num > 0 && rng.next() % den < num,
                Faults::At(n) => n == k,
            },
        };
        self.record(fire as u64);
        if fire {
            crate::heap::quiet(|| *self.fired.borrow_mut().entry(kind).or_default() += 1);
            self.ev_str("fault", kind);
        }
        fire
    }

    /// Count a rare situation that was reached (sensitivity probe).
    pub fn probe(&self, kind: &'static str) {
        crate::heap::quiet(|| *self.probes.borrow_mut().entry(kind).or_default() += 1);
    }

    fn hash_u64(&self, v: u64) {
        let h = self.hash.get() ^ v;
        self.hash.set(h.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29));
    }

    fn hash_bytes(&self, v: &[u8]) {
        self.hash_u64(v.len() as u64);
        for c in v.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.hash_u64(u64::from_le_bytes(b));
        }
    }

    fn push_trace(&self, s: String) {
        if let Some(t) = &self.trace {
            let mut t = t.borrow_mut();
            if t.len() < 4000 {
                t.push(s);
            }
        }
    }

    /// Log an event.
    pub fn ev(&self, tag: &'static str, a: u64, b: u64) {
        self.hash_bytes(tag.as_bytes());
        self.hash_u64(a);
        self.hash_u64(b);
        if self.trace.is_some() {
            crate::heap::quiet(|| self.push_trace(format!("{tag} {a} {b}")));
        }
    }

    pub fn ev_str(&self, tag: &'static str, s: &str) {
        self.hash_bytes(tag.as_bytes());
        self.hash_bytes(s.as_bytes());
        if self.trace.is_some() {
            crate::heap::quiet(|| self.push_trace(format!("{tag} {s}")));
        }
    }

    pub fn ev_bytes(&self, tag: &'static str, s: &[u8]) {
        self.hash_bytes(tag.as_bytes());
        self.hash_bytes(s);
        if self.trace.is_some() {
            crate::heap::quiet(|| self.push_trace(format!("{tag} {}", s.escape_ascii())));
        }
    }

    /// One call across a simulated seam: advances simulated time.
    pub fn tick(&self) {
        let t = self.ticks.get() + 1;
        self.ticks.set(t);
        if t > self.budget {
            panic!("{BUDGET_MSG}");
        }
        if self.explode.get() && !std::thread::panicking() && self.fault("environment_panics", 1, 100) {
            std::panic::resume_unwind(Box::new(Exploded));
        }
    }

    /// From now on, calls across seams may panic, and nothing is leaked on
    /// purpose.
    pub fn set_explode(&self) {
        self.explode.set(true);
    }

    pub fn explodes(&self) -> bool {
        self.explode.get()
    }

    /// Record an abstract state for the coverage measure.
    pub fn state(&self, a: u64, b: u64, c: u64) {
        let mut v = self.states.borrow_mut();
        let h = mix(a.wrapping_mul(0x1000193) ^ mix(b ^ mix(c)));
        if v.len() < 4096 {
            crate::heap::quiet(|| v.push(h));
        }
    }

    /// Short description of the workload for the evidence samples.
    pub fn describe(&self, s: impl FnOnce() -> String) {
        if self.trace.is_some() {
            crate::heap::quiet(|| {
                let s = s();
                self.push_trace(format!("workload {s}"));
                let mut n = self.note.borrow_mut();
                if n.is_empty() {
                    *n = s;
                }
            })
        }
    }
}
