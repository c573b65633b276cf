//! Plans, execution context, violations and the panic guard.
use crate::prng::mix;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One scheduled event: simulated task `task` performs `op` with raw arguments. Arguments are
/// interpreted modulo the current state of the world, so that any sub-sequence of a plan is a plan.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub task: u32,
    pub op: u32,
    pub a: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Plan {
    /// world configuration
    pub cfg: Vec<u64>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn push(&mut self, task: u32, op: u32, a: &[u64]) {
        self.steps.push(Step { task, op, a: a.to_vec() });
    }
    pub fn cfg(&self, i: usize) -> u64 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
}

impl Step {
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    /// argument reduced into 0..n (0 if n is 0)
    pub fn idx(&self, i: usize, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.arg(i) % n as u64) as usize
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable name of what went wrong; minimisation preserves it
    pub class: String,
    pub detail: String,
}

pub type Check = Result<(), Violation>;

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($fmt:tt)+) => {
        if !$c {
            return Err($crate::core::Violation { class: $class.to_string(), detail: format!($($fmt)+) });
        }
    };
}

/// Everything a run records. Nothing here feeds back into the run.
#[derive(Default)]
pub struct Cx {
    pub trace: u64,
    pub sched: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, u64>,
    pub checks: u64,
    pub log: Option<Vec<String>>,
}

impl Cx {
    pub fn obs(&mut self, x: u64) {
        self.trace = mix(self.trace, x);
    }
    pub fn obs_bytes(&mut self, b: &[u8]) {
        let mut h = b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(w));
        }
        self.obs(h);
    }
    pub fn obs_limbs(&mut self, v: &[u32]) {
        let mut h = v.len() as u64;
        for &x in v {
            h = mix(h, x as u64);
        }
        self.obs(h);
    }
    pub fn sched(&mut self, s: &Step) {
        self.sched = mix(self.sched, ((s.task as u64) << 32) | s.op as u64);
        self.steps += 1;
        beat();
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn faultn(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(k).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn check(&mut self) {
        self.checks += 1;
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            l.push(f());
        }
    }
}

// ---------------------------------------------------------------- heartbeat
static BEAT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
static BEATS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// where a worker shows that it moves on
pub fn beat_into(fd: i32) {
    BEAT.store(fd, std::sync::atomic::Ordering::Relaxed);
}
/// one scheduled step begins
pub fn beat() {
    use std::sync::atomic::Ordering::Relaxed;
    let fd = BEAT.load(Relaxed);
    if fd >= 0 {
        extern "C" {
            fn pwrite(fd: i32, b: *const u8, n: usize, at: i64) -> isize;
        }
        let n = BEATS.fetch_add(1, Relaxed) + 1;
        unsafe {
            pwrite(fd, n.to_le_bytes().as_ptr(), 8, 8);
        }
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST: RefCell<Option<(String, String)>> = RefCell::new(None);
    static GUARDED: Cell<u32> = Cell::new(0);
}

/// payload used by the simulator itself
pub enum SimPanic {
    /// the library drew more than the budget allows
    Budget(&'static str),
    /// an injected crash inside a caller-supplied callback
    Injected,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("<payload>")
        };
        LAST.with(|l| *l.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Caught {
    Budget(&'static str),
    Injected,
    /// message, location
    Panic(String, String),
}

impl Caught {
    pub fn describe(&self) -> String {
        match self {
            Caught::Budget(w) => format!("no progress: {}", w),
            Caught::Injected => "injected panic".into(),
            Caught::Panic(m, l) => format!("panic '{}' at {}", m, l),
        }
    }
    /// the panic came from the simulator's own code: a harness error
    pub fn is_harness(&self) -> bool {
        match self {
            Caught::Panic(_, l) => l.starts_with("src/") || l.contains("/verif/"),
            _ => false,
        }
    }
}

fn classify(p: Box<dyn Any + Send>) -> Caught {
    let (msg, loc) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
    if let Some(s) = p.downcast_ref::<SimPanic>() {
        return match s {
            SimPanic::Budget(w) => Caught::Budget(w),
            SimPanic::Injected => Caught::Injected,
        };
    }
    Caught::Panic(msg, loc)
}

/// run library code; a panic is an observation
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(classify)
}

/// run library code that must not panic and must make progress
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match guard(f) {
        Ok(x) => Ok(x),
        Err(c) => {
            let class = match &c {
                Caught::Budget(_) => format!("no-progress:{}", what),
                _ => format!("panic:{}", what),
            };
            Err(Violation { class, detail: c.describe() })
        }
    }
}

pub struct PropDef {
    pub id: &'static str,
    pub ops: &'static [&'static str],
    pub gen: fn(&mut crate::prng::Prng, bool) -> Plan,
    pub exec: fn(&Plan, &mut Cx) -> Check,
    /// builds the property is explored in, with the share of runs (per 100)
    pub builds: &'static [(&'static str, u64)],
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero in a batch for it to count as exploration of the property
    pub must_reach: &'static [&'static str],
}

/// Execute a plan from scratch. `Err(String)` is a harness error.
pub fn run_plan(p: &PropDef, plan: &Plan, log: bool) -> (Cx, Result<Check, String>) {
    let mut cx = Cx::default();
    if log {
        cx.log = Some(vec![]);
    }
    let r = guard(|| (p.exec)(plan, &mut cx));
    crate::alloc::off();
    crate::simos::reset();
    let r = match r {
        Ok(x) => Ok(x),
        Err(c) if c.is_harness() => Err(format!("harness error: {}", c.describe())),
        Err(c) => Ok(Err(Violation {
            class: match &c {
                Caught::Budget(_) => "no-progress".into(),
                _ => "panic".to_string(),
            },
            detail: c.describe(),
        })),
    };
    (cx, r)
}
