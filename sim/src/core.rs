//! The simulator's core: one seed -> one tape of decisions -> one execution.
//!
//! Every decision of a run (workload, schedule, faults) is drawn from [`Src`].  In search mode the
//! values come from a PRNG seeded with the run's seed and are recorded on a tape; in replay mode they
//! come from the tape (0 when the tape is exhausted).  0 is always the simplest choice, which is what
//! makes tape minimisation work.  Nothing else in a run is allowed to be a source of nondeterminism.

use std::collections::{BTreeMap, HashSet};

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn mix(h: u64, v: u64) -> u64 {
    splitmix(h.rotate_left(5) ^ v)
}

pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = splitmix(x);
            *v = x;
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
    pub stream: bool,
}

pub const MAX_DRAWS: usize = 4_000_000;

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, rec: vec![], stream: false }
    }
    pub fn replay(tape: Vec<u32>) -> Src {
        Src { rng: None, tape, pos: 0, rec: vec![], stream: false }
    }
    /// A value in 0..n (n >= 1).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n <= u32::MAX as usize);
        if self.rec.len() >= MAX_DRAWS {
            panic!("simulator: too many draws");
        }
        let v = match self.rng {
            Some(ref mut r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n as u32 - 1)
            }
        };
        self.rec.push(v);
        if self.stream {
            crate::runner::stream_draw(v);
        }
        v as usize
    }
    /// True with probability num/den; the simple choice is `false`.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Small values likely, up to `max` possible.
    pub fn geo(&mut self, max: usize) -> usize {
        let mut hi = 1;
        while hi < max && self.chance(1, 2) {
            hi *= 2;
        }
        let h = hi.min(max);
        self.range(0, h)
    }
    /// Index chosen by weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable identification of what went wrong (minimisation keeps it).
    pub class: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), detail })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::core::fail($class, format!($($arg)*)); }
    };
}

/// What one run produces besides its verdict.
#[derive(Default)]
pub struct Stats {
    /// fault kind -> times it actually fired
    pub faults: BTreeMap<&'static str, u64>,
    /// rare-condition probes
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub states: HashSet<u64>,
}

pub struct Run<'t> {
    pub src: Src,
    pub stats: &'t mut Stats,
    /// hash of the event log
    pub hash: u64,
    pub events: u64,
    /// Some(..) while tracing
    pub log: Option<Vec<String>>,
    /// Set by scenarios when the run made at least one schedule or fault decision that mattered.
    pub nontrivial: bool,
    /// State-measure hash (interleaving measure) of the run so far
    pub inter: u64,
}

impl<'t> Run<'t> {
    pub fn new(src: Src, stats: &'t mut Stats, trace: bool) -> Run<'t> {
        Run {
            src,
            stats,
            hash: 0x1234_5678,
            events: 0,
            log: if trace { Some(vec![]) } else { None },
            nontrivial: false,
            inter: 0,
        }
    }
    /// One event of the run's history.  Feeds the event-log hash; never draws.
    pub fn ev(&mut self, kind: &'static str, a: u64, b: u64) {
        self.events += 1;
        self.stats.steps += 1;
        self.hash = mix(mix(mix(self.hash, hash_str(kind)), a), b);
        if let Some(log) = self.log.as_mut() {
            log.push(format!("{:>5} {} {} {}", self.events, kind, a as i64, b as i64));
        }
    }
    /// A line for humans (trace only).
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(log) = self.log.as_mut() {
            log.push(f());
        }
    }
    pub fn tracing(&self) -> bool {
        self.log.is_some()
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.stats.faults.entry(kind).or_insert(0) += 1;
        self.nontrivial = true;
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.stats.probes.entry(kind).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        if self.stats.states.len() < 4_000_000 {
            self.stats.states.insert(h);
        }
    }
    /// Feed the interleaving measure.
    pub fn il(&mut self, v: u64) {
        self.inter = mix(self.inter, v);
    }
}

/// Payload of injected panics, so that they can be told from real ones.
pub struct Injected;

pub fn inject_panic() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}

/// Runs `f`, mapping an injected panic to Err(()); real panics continue.
pub fn catch_injected<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Injected>() {
                Err(())
            } else {
                std::panic::resume_unwind(p)
            }
        }
    }
}

pub type RunFn = fn(&mut Run) -> Res;

pub struct Scenario {
    pub name: &'static str,
    pub property: &'static str,
    pub run: RunFn,
    /// number of runs (quick, thorough)
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// measure of distinct interleavings/states
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// unit of simulated time
    pub time_unit: &'static str,
}
