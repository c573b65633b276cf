//! Caller-supplied random sources and seed sources, under control of the plan.
use crate::core::SimPanic;
use crate::prng::{mix, Prng};
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Result, Seed, Source};
use std::cell::{Cell, RefCell};

pub const KINDS: [RandErrKind; 3] = [RandErrKind::NoNewRandNumberGen, RandErrKind::InnerErr, RandErrKind::NoNewRandSeedGen];

pub fn kind_no(k: RandErrKind) -> u64 {
    match k {
        RandErrKind::NoNewRandSeedGen => 1,
        RandErrKind::NoNewRandNumberGen => 2,
        RandErrKind::DivisorIsZero => 3,
        RandErrKind::InvalidRngPara => 4,
        RandErrKind::InnerErr => 5,
    }
}

/// When the source fails. All of it is plain data so that a plan can carry and minimise it.
#[derive(Clone, Debug, Default)]
pub struct Faults {
    /// bit i set: call number i (of the first 64) fails
    pub mask: u64,
    /// after the first 64 calls: one call in `one_in` fails (0 = never)
    pub one_in: u64,
    /// a burst of failures: start, length
    pub burst: (u64, u64),
    pub seed: u64,
    /// total number of failures at most
    pub cap: u64,
    /// panic instead of answering this call (counted from 1; 0 = never)
    pub panic_at: u64,
}

impl Faults {
    pub fn none() -> Faults {
        Faults::default()
    }
    pub fn from_args(a: &[u64]) -> Faults {
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        Faults { mask: g(0), one_in: g(1) % 64, burst: (g(2) % 4096, g(3) % 512), seed: g(4), cap: g(5) % 4096, panic_at: 0 }
    }
    /// does call number `c` fail (without regard to the cap)
    pub fn hits(&self, c: u64) -> bool {
        (c < 64 && self.mask >> c & 1 == 1) || (c >= self.burst.0 && c - self.burst.0 < self.burst.1) || (c >= 64 && self.one_in > 0 && mix(self.seed, c) % self.one_in == 0)
    }
    /// six numbers for a plan
    pub fn gen(r: &mut Prng) -> Vec<u64> {
        let mask = match r.below(8) {
            0 | 1 => 0,
            2 => 1,
            3 => 1 << r.below(20),
            4 => r.u64() & r.u64(),
            5 => r.u64() & 0xffff,
            6 => u64::MAX >> r.below(64),
            _ => 0x5555_5555_5555_5555 << r.below(2),
        };
        let one_in = *r.pick(&[0, 0, 0, 2, 3, 10, 40]);
        let burst = if r.chance(1, 3) { (r.below(200), 1 + r.below(100)) } else { (0, 0) };
        vec![mask, one_in, burst.0, burst.1, r.u64() >> 40, 1 + r.below(300)]
    }
}

/// The scripted source of 32-bit words.
#[derive(Clone)]
pub struct SimRng {
    pub prefix: Vec<u32>,
    pub seed: u64,
    pub faults: Faults,
    pub calls: u64,
    pub words: u64,
    pub failed: u64,
    /// words that may be delivered before the run counts as stuck
    pub budget: u64,
    pub resets: u64,
}

impl SimRng {
    pub fn new(prefix: Vec<u32>, seed: u64, faults: Faults, budget: u64) -> SimRng {
        SimRng { prefix, seed, faults, calls: 0, words: 0, failed: 0, budget, resets: 0 }
    }
    /// the i-th word of the stream
    pub fn word(&self, i: u64) -> u32 {
        match self.prefix.get(i as usize) {
            Some(&w) => w,
            None => (mix(self.seed, i) >> 17) as u32,
        }
    }
    pub fn fails(&self, c: u64) -> bool {
        self.failed < self.faults.cap && self.faults.hits(c)
    }
}

impl Source<u32> for SimRng {
    fn gen(&mut self) -> Result<u32> {
        crate::sched::callback();
        let c = self.calls;
        self.calls += 1;
        if self.faults.panic_at != 0 && self.calls == self.faults.panic_at {
            std::panic::panic_any(SimPanic::Injected);
        }
        if self.calls > self.budget + self.failed {
            std::panic::panic_any(SimPanic::Budget("the source was asked for more words than the bound allows"));
        }
        if self.fails(c) {
            self.failed += 1;
            return Err(RandError::new(KINDS[(mix(self.faults.seed, c) % 2) as usize], format!("injected #{}", c)));
        }
        let w = self.word(self.words);
        self.words += 1;
        Ok(w)
    }
    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> Result<()> {
        sd.seed().map(|_| {
            self.resets += 1;
        })
    }
}

impl IterSource<u32> for SimRng {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
        Iter::new(self)
    }
}

/// adversarial start of a word stream; `limbs` is the bound or candidate it is used with
pub fn prefix(kind: u64, len: u64, seed: u64, limbs: &[u32]) -> Vec<u32> {
    let len = len.min(1600) as usize;
    let mut r = Prng::new(seed);
    let at = |i: usize| if limbs.is_empty() { 0 } else { limbs[i % limbs.len()] };
    (0..len)
        .map(|i| match kind % 11 {
            0 => r.u32(),
            1 => 0,
            2 => u32::MAX,
            3 => at(i),                                        // exactly the bound
            4 => at(i).wrapping_sub((i % limbs.len().max(1) == 0) as u32), // bound - 1
            5 => at(i).wrapping_add((i % limbs.len().max(1) == 0) as u32), // bound + 1
            6 => r.spicy32(),
            7 => (i % limbs.len().max(1) == 0) as u32, // one
            8 => if i % limbs.len().max(1) + 1 == limbs.len() { 0 } else { r.u32() }, // zero top word
            9 => 1 << (i % 32),
            _ => if i / limbs.len().max(1) % 2 == 0 { u32::MAX } else { at(i) },
        })
        .collect()
}

/// The scripted seed source. Entries are consumed one per call; the last one repeats.
pub struct SimSeed<T> {
    pub script: RefCell<Vec<std::result::Result<T, (u64, u64)>>>,
    pub taken: Cell<u64>,
    pub panic: Cell<bool>,
}

impl<T: Copy> SimSeed<T> {
    pub fn ok(x: T) -> SimSeed<T> {
        SimSeed { script: RefCell::new(vec![Ok(x)]), taken: Cell::new(0), panic: Cell::new(false) }
    }
    pub fn err(kind: u64, tag: u64) -> SimSeed<T> {
        SimSeed { script: RefCell::new(vec![Err((kind, tag))]), taken: Cell::new(0), panic: Cell::new(false) }
    }
    pub fn panicking() -> SimSeed<T> {
        SimSeed { script: RefCell::new(vec![]), taken: Cell::new(0), panic: Cell::new(true) }
    }
    fn draw(&self) -> Result<T> {
        crate::sched::callback();
        let n = self.taken.get();
        self.taken.set(n + 1);
        if self.panic.get() {
            std::panic::panic_any(SimPanic::Injected);
        }
        let s = self.script.borrow();
        let e = s[(n as usize).min(s.len() - 1)];
        match e {
            Ok(x) => Ok(x),
            Err((k, tag)) => Err(RandError::new(KINDS[(k % 3) as usize], format!("seed error {}", tag))),
        }
    }
}
impl Seed<u32> for SimSeed<u32> {
    fn seed(&self) -> Result<u32> {
        self.draw()
    }
}
impl Seed<u64> for SimSeed<u64> {
    fn seed(&self) -> Result<u64> {
        self.draw()
    }
}
impl Seed<usize> for SimSeed<usize> {
    fn seed(&self) -> Result<usize> {
        self.draw()
    }
}
