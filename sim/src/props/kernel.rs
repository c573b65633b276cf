//! C11: the portable CryptoRand on a simulated kernel entropy pool.
use crate::core::*;
use crate::prng::{mix, Prng};
use crate::simos::{install_kernel, with_kernel, KReply};
use crate::simrng::SimSeed;
use rmath::rand::{CryptoRand, IterSource, RandError, Source};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone)]
enum R {
    C32(CryptoRand<u32>),
    C64(CryptoRand<u64>),
    Cus(CryptoRand<usize>),
}
impl R {
    fn new(ty: u64, fail: bool, tag: u64) -> Result<R, RandError> {
        macro_rules! go {
            ($T: ty, $V: ident) => {
                CryptoRand::<$T>::new(&if fail { SimSeed::<$T>::err(tag, tag) } else { SimSeed::<$T>::ok(tag as $T) }).map(R::$V)
            };
        }
        match ty {
            0 => go!(u32, C32),
            1 => go!(u64, C64),
            _ => go!(usize, Cus),
        }
    }
    fn len(&self) -> usize {
        if matches!(self, R::C32(_)) { 4 } else { 8 }
    }
    fn gen(&mut self) -> Result<u64, RandError> {
        match self {
            R::C32(g) => g.gen().map(|x| x as u64),
            R::C64(g) => g.gen(),
            R::Cus(g) => g.gen().map(|x| x as u64),
        }
    }
    fn iterate(&mut self, n: u64, mark: &dyn Fn()) -> Vec<Option<u64>> {
        macro_rules! go {
            ($g: expr) => {{
                let mut it = $g.iter_mut();
                (0..n)
                    .map(|_| {
                        mark();
                        let x = it.next().map(|x| x as u64);
                        if x.is_none() {
                            it.clear_error();
                        }
                        x
                    })
                    .collect()
            }};
        }
        match self {
            R::C32(g) => go!(g),
            R::C64(g) => go!(g),
            R::Cus(g) => go!(g),
        }
    }
    fn reset(&mut self, tag: u64) -> Result<(), RandError> {
        match self {
            R::C32(g) => g.reset(&SimSeed::<u32>::ok(tag as u32)),
            R::C64(g) => g.reset(&SimSeed::<u64>::ok(tag)),
            R::Cus(g) => g.reset(&SimSeed::<usize>::ok(tag as usize)),
        }
    }
}

/// fault weights: full, short, zero, EAGAIN, EINTR, ENOSYS, EFAULT with junk in the buffer
struct Pool {
    seed: u64,
    calls: u64,
    bytes: u64,
    stretch: u64,
    weights: [u64; 7],
    calm: bool,
    outage: bool,
    /// one entry per call of the current request: bytes delivered, or an errno
    log: Vec<Result<Vec<u8>, i32>>,
    faults: [u64; 7],
}
impl Pool {
    fn call(&mut self, len: usize) -> KReply {
        let mut r = Prng::new(mix(self.seed, self.calls));
        self.calls += 1;
        if self.log.len() > 4000 {
            std::panic::panic_any(SimPanic::Budget("the kernel is polled without end"));
        }
        let k = if self.outage { 3 + r.below(4) as usize } else if self.calm { 0 } else { r.weighted(&self.weights) };
        self.faults[k] += 1;
        let n = match k {
            0 => len,
            1 => r.below(len as u64) as usize,
            2 => 0,
            _ => {
                let e = [11, 4, 38, 14][k - 3];
                self.log.push(Err(e));
                let junk = if k == 6 || r.chance(1, 2) { (0..r.below(len as u64 + 1)).map(|_| r.u32() as u8).collect() } else { vec![] };
                return KReply::Errno(e, junk);
            }
        };
        let v: Vec<u8> = (0..n)
            .map(|_| {
                self.bytes += 1;
                // stretches of equal bytes, so that whole words of zeros or ones occur
                let run = mix(self.seed ^ 0x57, self.bytes / self.stretch);
                match run % 32 {
                    0 | 1 => 0,
                    2 => 0xff,
                    3 => (run >> 8) as u8,
                    _ => (mix(self.seed ^ 0x5eed, self.bytes) >> 24) as u8,
                }
            })
            .collect();
        self.log.push(Ok(v.clone()));
        KReply::Bytes(v)
    }
}

pub const OPS: &[&str] = &["new", "gen", "iterate", "clone", "drop", "reset", "outage_begins", "outage_ends"];
const SL: u64 = 3;

fn gen(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 4);
    let len = if thorough { r.range(10, 120) } else { r.range(8, 50) };
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        st(0, vec![0, r.below(3), r.below(2), r.u64() >> 16]);
        for _ in 0..len / tasks + 3 {
            let slot = if r.chance(2, 3) { 0 } else { r.below(SL) };
            match r.weighted(&[2, 30, 8, 5, 1, 2, 1, 2]) {
                0 => st(0, vec![slot, r.below(3), r.below(2), r.u64() >> 16]),
                2 => st(2, vec![slot, r.range(1, 12)]),
                3 => st(3, vec![slot, r.below(tasks), r.below(SL)]),
                5 => st(5, vec![slot, r.u64() >> 16]),
                k => st(k as u32, vec![slot]),
            }
        }
        progs.push(p);
    }
    let mut cfg = vec![r.u64() >> 1];
    let style = r.below(5);
    for k in 0..7u64 {
        cfg.push(match (style, k) {
            (0, 0) => 1,
            (0, _) => 0,
            (1, 1) => 5,
            (1, 0) => 2,
            (1, _) => 0,
            (2, _) => r.range(0, 3) + (k == 0) as u64,
            (3, 0) => 20,
            (3, _) => 1,
            _ => r.range(0, 5) + (k < 2) as u64,
        });
    }
    Plan { cfg, steps: super::interleave(r, progs) }
}

struct Live {
    g: R,
    /// bytes the kernel gave this generator and that it has not delivered yet
    fifo: VecDeque<u8>,
}

fn judge(l: &mut Live, log: &[Result<Vec<u8>, i32>], got: Option<u64>, what: &str) -> Check {
    for e in log {
        if let Ok(v) = e {
            l.fifo.extend(v);
        }
    }
    let k = l.g.len();
    match got {
        Some(v) => {
            ensure!(l.fifo.len() >= k, "invented-bytes", "{} delivered {:#x} although the generator holds only {} of {} bytes", what, v, l.fifo.len(), k);
            let want: Vec<u8> = l.fifo.drain(..k).collect();
            let have = &v.to_le_bytes()[..k];
            ensure!(have == &want[..], "wrong-bytes", "{} delivered bytes {:02x?}, the next bytes from the kernel are {:02x?}", what, have, want);
        }
        None => ensure!(l.fifo.len() < k, "refused", "{} was refused although the generator holds {} of {} bytes", what, l.fifo.len(), k),
    }
    Ok(())
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let mut weights = [0; 7];
    for (i, w) in weights.iter_mut().enumerate() {
        *w = plan.cfg(i + 1) % 64;
    }
    if weights.iter().sum::<u64>() == 0 {
        weights[0] = 1;
    }
    let pool = Rc::new(RefCell::new(Pool { seed: plan.cfg(0), calls: 0, bytes: 0, stretch: [5, 8, 16, 24, 64][(plan.cfg(0) % 5) as usize], weights, calm: false, outage: false, log: vec![], faults: [0; 7] }));
    let p2 = pool.clone();
    install_kernel(Box::new(move |len, _| p2.borrow_mut().call(len)));
    let n = 8 * SL as usize;
    let mut live: Vec<Option<Live>> = (0..n).map(|_| None).collect();
    let take = |p: &Rc<RefCell<Pool>>| std::mem::take(&mut p.borrow_mut().log);
    for s in &plan.steps {
        cx.sched(s);
        let at = ((s.task as u64 * SL + s.arg(0) % SL) as usize) % n;
        match s.op {
            0 => {
                if let Ok(g) = must("new", || with_kernel(|| R::new(s.arg(1) % 3, s.arg(2) % 2 == 1, s.arg(3))))? {
                    let mut l = Live { g, fifo: VecDeque::new() };
                    for e in take(&pool).into_iter().flatten() {
                        l.fifo.extend(e); // bytes fetched ahead of time
                    }
                    live[at] = Some(l);
                }
            }
            1 => {
                if let Some(l) = live[at].as_mut() {
                    let r = must("gen", || with_kernel(|| l.g.gen()))?;
                    let log = take(&pool);
                    cx.say(|| format!("task {} slot {}: gen -> {:x?}; kernel {:x?}; held before {:x?}", s.task, at, r.as_ref().ok(), log, l.fifo));
                    cx.check();
                    cx.obs(r.as_ref().map_or(1, |x| *x));
                    if l.fifo.len() > 0 {
                        cx.probe("leftover_bytes_held");
                    }
                    judge(l, &log, r.ok(), "gen")?;
                }
            }
            2 => {
                if let Some(l) = live[at].as_mut() {
                    let cuts = RefCell::new(vec![]);
                    let cnt = s.arg(1) % 40;
                    let p = pool.clone();
                    let r = must("iterate", || with_kernel(|| l.g.iterate(cnt, &|| cuts.borrow_mut().push(p.borrow().log.len()))))?;
                    let log = take(&pool);
                    let mut cuts = cuts.into_inner();
                    cuts.push(log.len());
                    for (i, x) in r.iter().enumerate() {
                        cx.check();
                        cx.obs(x.unwrap_or(1));
                        judge(l, &log[cuts[i]..cuts[i + 1]], *x, "iterator")?;
                    }
                }
            }
            3 => {
                let src = ((s.arg(1) % 8 * SL + s.arg(2) % SL) as usize) % n;
                if src != at {
                    let c = match live[src].as_ref() {
                        Some(l) => {
                            if l.fifo.len() > 0 {
                                cx.probe("cloned_with_leftover");
                            }
                            Some(Live { g: must("clone", || with_kernel(|| l.g.clone()))?, fifo: VecDeque::new() })
                        }
                        None => None,
                    };
                    if c.is_some() {
                        live[at] = c;
                    }
                    take(&pool);
                }
            }
            4 => live[at] = None,
            5 => {
                if let Some(l) = live[at].as_mut() {
                    let _ = must("reset", || with_kernel(|| l.g.reset(s.arg(1))))?;
                    for e in take(&pool).into_iter().flatten() {
                        l.fifo.extend(e);
                    }
                }
            }
            6 => pool.borrow_mut().outage = true,
            7 => pool.borrow_mut().outage = false,
            _ => {}
        }
    }
    {
        let mut p = pool.borrow_mut();
        p.outage = false;
        p.calm = true;
        for (i, k) in ["kernel_short_read", "kernel_empty_read", "getrandom_EAGAIN", "getrandom_EINTR", "getrandom_ENOSYS", "getrandom_EFAULT_dirty_buffer"].iter().enumerate() {
            cx.faultn(k, p.faults[i + 1]);
        }
    }
    for l in live.iter_mut().flatten() {
        for _ in 0..3 {
            let r = must("gen", || with_kernel(|| l.g.gen()))?;
            let log = take(&pool);
            cx.check();
            ensure!(r.is_ok(), "no-recovery", "a generator still fails after the kernel recovered");
            judge(l, &log, r.ok(), "gen")?;
        }
    }
    Ok(())
}

pub const C11: PropDef = PropDef {
    id: "C11", ops: OPS, gen, exec, builds: &[("portable", 1)], quick: 480000, thorough: 6000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one word was compared with the bytes the kernel delivered and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["portable CryptoRand", "os::linux::BCrypt", "Iter"],
    stub: &["getrandom system call (interposed at link time)"],
    assumptions: &["the order of bytes within a word is little endian, as delivered by from_le_bytes", "Linux branch only; the Windows CNG branch cannot be compiled here"],
    must_reach: &["kernel_short_read", "getrandom_EINTR", "leftover_bytes_held", "cloned_with_leftover"],
};
