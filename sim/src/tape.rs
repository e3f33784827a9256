//! The choice tape: the only source of nondeterminism of a run.
//! A run draws every generated artefact, fault and schedule decision from here.

use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// FNV-1a, with a final mix when used as a signature.
pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

enum Source {
    Seed(Rng),
    Tape(Vec<u64>),
}

/// A property violation found by a run.
#[derive(Clone, Debug)]
pub struct Violation {
    /// short, stable name of what is broken; minimisation keeps it fixed
    pub class: String,
    pub msg: String,
}

pub type RunResult = Result<(), Violation>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! bail {
    ($class:expr, $($a:tt)*) => { return $crate::tape::viol($class, format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($a:tt)*) => { if !($cond) { return $crate::tape::viol($class, format!($($a)*)); } };
}

pub struct Ctx {
    src: Source,
    pos: usize,
    pub tape: Vec<u64>,
    pub tracing: bool,
    pub trace: Vec<String>,
    /// digest of observable results of this run (determinism self-test, distinctness)
    pub digest: u64,
    pub nontrivial: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn from_seed(seed: u64) -> Ctx {
        Ctx::new(Source::Seed(Rng::new(seed)))
    }
    pub fn from_tape(tape: Vec<u64>) -> Ctx {
        Ctx::new(Source::Tape(tape))
    }
    fn new(src: Source) -> Ctx {
        Ctx {
            src,
            pos: 0,
            tape: Vec::new(),
            tracing: false,
            trace: Vec::new(),
            digest: FNV0,
            nontrivial: false,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            steps: 0,
            thorough: false,
        }
    }
    /// A choice in 0..n. By convention 0 is the simplest choice.
    pub fn pick(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Seed(r) => r.next() % n,
            Source::Tape(t) => match t.get(self.pos) {
                Some(v) => *v % n,
                None => 0,
            },
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    /// A full 64-bit choice.
    pub fn word(&mut self) -> u64 {
        self.pick(u64::MAX)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.pick(n as u64) as usize
    }
    /// inclusive range; lo is the simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.pick((hi - lo + 1) as u64) as usize
    }
    /// inclusive range; once in 200 up to `many` instead of `hi`
    pub fn often(&mut self, lo: usize, hi: usize, many: usize) -> usize {
        if self.chance(1, 200) {
            self.range(hi, many)
        } else {
            self.range(lo, hi)
        }
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // big draws mean "yes" so that 0 is "no"
        self.pick(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// weighted choice; returns the index. Put the simplest first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.pick(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn choose<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn ev(&mut self, bytes: &[u8]) {
        self.digest = fnv(fnv(self.digest, bytes), &[0xff]);
        self.steps += 1;
    }
    pub fn ev_u(&mut self, v: u64) {
        self.ev(&v.to_le_bytes());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}
