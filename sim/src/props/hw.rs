//! C12 (and the hardware sources of C03): the real rdrand/rdseed users on a simulated processor.
use crate::core::*;
use crate::prng::{mix, Prng};
use crate::simrng::{kind_no, Faults, SimSeed};
use rmath::rand::sim_hw::{install, Insn};
use rmath::rand::{CryptoRand, DefaultRand, DefaultSeed, IterSource, RandErrKind, RandError, Seed, Source};
use std::cell::RefCell;
use std::rc::Rc;

/// The processor: every step returns a fresh value or fails, leaving junk in the register.
pub struct Hw {
    pub seed: u64,
    pub faults: [Faults; 2],
    pub count: [u64; 2],
    pub failed: [u64; 2],
    pub dead: bool,
    pub log: Vec<(Insn, bool, u64)>,
}

impl Hw {
    pub fn start(seed: u64, f0: Faults, f1: Faults) -> Rc<RefCell<Hw>> {
        let hw = Rc::new(RefCell::new(Hw { seed, faults: [f0, f1], count: [0; 2], failed: [0; 2], dead: false, log: vec![] }));
        let h = hw.clone();
        install(Some(Box::new(move |i| h.borrow_mut().step(i))));
        hw
    }
    fn step(&mut self, i: Insn) -> (bool, u64) {
        let c = matches!(i, Insn::Rdseed32 | Insn::Rdseed64) as usize;
        let n = self.count[c];
        self.count[c] += 1;
        let f = &self.faults[c];
        let fails = self.dead || (self.failed[c] < f.cap && f.hits(n));
        let v = mix(self.seed ^ c as u64, n);
        if fails {
            self.failed[c] += 1;
            // the register is documented as zero; be hostile: zero, garbage, or the last good value
            let last = self.log.iter().rev().find(|e| e.1).map_or(7, |e| e.2);
            let junk = [0, v, last, 1][(v % 4) as usize];
            self.log.push((i, false, junk));
            if self.log.len() > 4000 {
                std::panic::panic_any(SimPanic::Budget("the processor is polled without end"));
            }
            return (false, junk);
        }
        // any word is a valid word: zero, ones, small ones, one half empty
        let v = match mix(v, 3) % 48 {
            0 => 0,
            1 => u64::MAX,
            2 => v & 0xff,
            3 => v & 0xffff_ffff,
            4 => v & !0xffff_ffff,
            5 => 1 << (v % 64),
            _ => v,
        };
        let v = if matches!(i, Insn::Rdrand32 | Insn::Rdseed32) { v & 0xffff_ffff } else { v };
        self.log.push((i, true, v));
        (true, v)
    }
}

/// judge one word request given the processor steps it caused
pub fn judge(what: &str, bits: u32, r: &Result<u64, RandError>, ev: &[(Insn, bool, u64)], err: RandErrKind) -> Check {
    let good: Vec<u64> = ev.iter().filter(|e| e.1).map(|e| e.2).collect();
    let last_ok = ev.last().map(|e| e.1);
    let m = if bits == 32 { 0xffff_ffff } else { u64::MAX };
    match r {
        Ok(v) => {
            ensure!(!good.is_empty(), "invented-word", "{} returned {:#x} although no hardware step succeeded ({} steps)", what, v, ev.len());
            ensure!(last_ok == Some(true), "papered-over", "{} returned {:#x} although the last hardware step reported failure", what, v);
            let two = bits == 64 && good.len() == 2 && good.iter().all(|x| x >> 32 == 0) && (*v == good[0] | good[1] << 32 || *v == good[1] | good[0] << 32);
            ensure!(two || (good.len() == 1 && *v == good[0] & m), "wrong-word", "{} returned {:#x}, the processor delivered {:x?}", what, v, good);
        }
        Err(e) => {
            ensure!(last_ok.is_some(), "refused-without-asking", "{} reported '{:?}' without asking the processor", what, e.kind());
            ensure!(last_ok == Some(false), "lost-word", "{} reported '{:?}' although the processor delivered {:x?}", what, e.kind(), good);
            ensure!(kind_no(e.kind()) == kind_no(err), "error-kind", "{} reported {:?} instead of {:?}", what, e.kind(), err);
        }
    }
    Ok(())
}

#[derive(Clone)]
enum R {
    D32(DefaultRand<u32>),
    D64(DefaultRand<u64>),
    Dus(DefaultRand<usize>),
    C32(CryptoRand<u32>),
    C64(CryptoRand<u64>),
    Cus(CryptoRand<usize>),
}
macro_rules! each {
    ($s: expr, $g: ident => $e: expr) => {
        match $s {
            R::D32($g) => $e,
            R::D64($g) => $e,
            R::Dus($g) => $e,
            R::C32($g) => $e,
            R::C64($g) => $e,
            R::Cus($g) => $e,
        }
    };
}
#[derive(Clone)]
enum S {
    S32(DefaultSeed<u32>),
    S64(DefaultSeed<u64>),
    Sus(DefaultSeed<usize>),
}
impl S {
    fn bits(&self) -> u32 {
        if matches!(self, S::S32(_)) { 32 } else { 64 }
    }
    fn seed(&self) -> Result<u64, RandError> {
        match self {
            S::S32(s) => s.seed().map(|x| x as u64),
            S::S64(s) => s.seed(),
            S::Sus(s) => s.seed().map(|x| x as u64),
        }
    }
}

trait W64 {
    fn w(self) -> u64;
}
impl W64 for u32 {
    fn w(self) -> u64 {
        self as u64
    }
}
impl W64 for u64 {
    fn w(self) -> u64 {
        self
    }
}
impl W64 for usize {
    fn w(self) -> u64 {
        self as u64
    }
}

/// seed source used for construction/reset: 0 scripted ok, 1 scripted failing, 2 the hardware one
fn new_r(kind: u64, sk: u64, tag: u64) -> Result<R, RandError> {
    macro_rules! go {
        ($G: ident, $T: ty, $V: ident) => {{
            match sk {
                0 => $G::<$T>::new(&SimSeed::<$T>::ok(tag as $T)).map(R::$V),
                1 => $G::<$T>::new(&SimSeed::<$T>::err(tag, tag)).map(R::$V),
                _ => $G::<$T>::new(&DefaultSeed::<$T>::new()?).map(R::$V),
            }
        }};
    }
    match kind {
        0 => go!(DefaultRand, u32, D32),
        1 => go!(DefaultRand, u64, D64),
        2 => go!(DefaultRand, usize, Dus),
        3 => go!(CryptoRand, u32, C32),
        4 => go!(CryptoRand, u64, C64),
        _ => go!(CryptoRand, usize, Cus),
    }
}
fn reset_g<T, G: Source<T>>(g: &mut G, sk: u64, tag: T, k: u64) -> Result<(), RandError>
where
    T: rmath::rand::PrimitiveType + Copy,
    SimSeed<T>: Seed<T>,
    DefaultSeed<T>: Seed<T>,
{
    match sk {
        0 => g.reset(&SimSeed::<T>::ok(tag)),
        1 => g.reset(&SimSeed::<T>::err(k, k)),
        _ => g.reset(&DefaultSeed::<T>::new()?),
    }
}
impl R {
    fn bits(&self) -> u32 {
        if matches!(self, R::D32(_) | R::C32(_)) { 32 } else { 64 }
    }
    fn gen(&mut self) -> Result<u64, RandError> {
        each!(self, g => g.gen().map(W64::w))
    }
    fn reset(&mut self, sk: u64, tag: u64) -> Result<(), RandError> {
        match self {
            R::D32(g) => reset_g::<u32, _>(g, sk, tag as u32, tag),
            R::D64(g) => reset_g::<u64, _>(g, sk, tag, tag),
            R::Dus(g) => reset_g::<usize, _>(g, sk, tag as usize, tag),
            R::C32(g) => reset_g::<u32, _>(g, sk, tag as u32, tag),
            R::C64(g) => reset_g::<u64, _>(g, sk, tag, tag),
            R::Cus(g) => reset_g::<usize, _>(g, sk, tag as usize, tag),
        }
    }
}

pub const OPS: &[&str] = &["new_rand", "gen", "reset", "clone_rand", "drop_rand", "seed", "new_seed", "clone_seed", "iterate", "seed_engine", "outage_begins", "outage_ends"];
const SL: u64 = 3;

fn gen(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 4);
    let len = if thorough { r.range(10, 120) } else { r.range(8, 50) };
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        st(0, vec![0, r.below(6), r.below(3), r.u64() >> 16]);
        st(6, vec![0, r.below(3)]);
        for _ in 0..len / tasks + 3 {
            let op = r.weighted(&[2, 30, 4, 3, 1, 14, 2, 1, 6, 4, 1, 2]) as u32;
            let slot = r.below(SL);
            match op {
                0 => st(0, vec![slot, r.below(6), r.below(3), r.u64() >> 16]),
                2 => st(2, vec![slot, r.below(3), r.u64() >> 16]),
                3 | 7 => st(op, vec![slot, r.below(tasks), r.below(SL)]),
                6 => st(6, vec![slot, r.below(3)]),
                8 => st(8, vec![slot, r.range(1, 12), r.below(2)]),
                9 => st(9, vec![slot, r.below(8)]),
                _ => st(op, vec![slot]),
            }
        }
        progs.push(p);
    }
    let mut cfg = vec![r.u64() >> 1];
    cfg.extend(Faults::gen(r));
    cfg.extend(Faults::gen(r));
    Plan { cfg, steps: super::interleave(r, progs) }
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let c = &plan.cfg;
    let part = |a: usize, b: usize| Faults::from_args(c.get(a..b.min(c.len())).unwrap_or(&[]));
    let hw = Hw::start(plan.cfg(0), part(1, 7), part(7, 13));
    let n = 8 * SL as usize;
    let mut rs: Vec<Option<R>> = (0..n).map(|_| None).collect();
    let mut ss: Vec<Option<S>> = (0..n).map(|_| None).collect();
    let gen_err = RandErrKind::NoNewRandNumberGen;
    let seed_err = RandErrKind::NoNewRandSeedGen;
    for s in &plan.steps {
        cx.sched(s);
        let at = ((s.task as u64 * SL + s.arg(0) % SL) as usize) % n;
        let src = ((s.arg(1) % 8 * SL + s.arg(2) % SL) as usize) % n;
        let mark = hw.borrow().log.len();
        let mut quiet = true; // this step must not consume hardware words
        match s.op {
            0 => {
                let r = must("new", || new_r(s.arg(1) % 6, s.arg(2) % 3, s.arg(3)))?;
                if s.arg(2) % 3 == 1 {
                    cx.fault("seed_source_error");
                }
                match r {
                    Ok(g) => rs[at] = Some(g),
                    Err(e) => return violation("construction-failed", format!("a hardware generator could not be constructed: {:?}", e.kind())),
                }
            }
            1 => {
                if let Some(g) = rs[at].as_mut() {
                    quiet = false;
                    let r = must("gen", || g.gen())?;
                    cx.check();
                    let h = hw.borrow();
                    let ev = &h.log[mark..];
                    cx.obs(r.as_ref().map_or(0, |x| *x));
                    cx.faultn("rdrand_underflow", ev.iter().filter(|e| !e.1).count() as u64);
                    cx.say(|| format!("task {} slot {}: gen {}-bit -> {:x?} (steps {:x?})", s.task, at, g.bits(), r.as_ref().ok(), ev));
                    judge("gen", g.bits(), &r, ev, gen_err)?;
                }
            }
            2 => {
                if let Some(g) = rs[at].as_mut() {
                    let r = must("reset", || g.reset(s.arg(1) % 3, s.arg(2)))?;
                    cx.check();
                    ensure!(r.is_ok(), "reset-failed", "reseeding a hardware generator failed");
                }
            }
            3 => {
                if src != at {
                    rs[at] = rs[src].clone();
                }
            }
            4 => rs[at] = None,
            5 => {
                if let Some(g) = ss[at].as_ref() {
                    quiet = false;
                    let r = must("seed", || g.seed())?;
                    cx.check();
                    let h = hw.borrow();
                    let ev = &h.log[mark..];
                    cx.obs(r.as_ref().map_or(0, |x| *x));
                    cx.faultn("rdseed_underflow", ev.iter().filter(|e| !e.1).count() as u64);
                    judge("seed", g.bits(), &r, ev, seed_err)?;
                    // judged by insn kind too: seeds come from rdseed
                }
            }
            6 => {
                let r = must("new seed", || match s.arg(1) % 3 {
                    0 => DefaultSeed::<u32>::new().map(S::S32),
                    1 => DefaultSeed::<u64>::new().map(S::S64),
                    _ => DefaultSeed::<usize>::new().map(S::Sus),
                })?;
                match r {
                    Ok(x) => ss[at] = Some(x),
                    Err(_) => return violation("construction-failed", "the hardware seed source could not be constructed"),
                }
            }
            7 => {
                if src != at {
                    ss[at] = ss[src].clone();
                }
            }
            8 => {
                // iterate; on an error note it, clear it and go on
                if let Some(g) = rs[at].as_mut() {
                    quiet = false;
                    let cnt = s.arg(1) % 40;
                    let bits = g.bits();
                    let h = &hw;
                    let res: Vec<(usize, Result<u64, RandErrKind>)> = must("iterate", || {
                        each!(g, g => {
                            let mut it = g.iter_mut();
                            let mut out = vec![];
                            for _ in 0..cnt {
                                let m0 = h.borrow().log.len();
                                match it.next() {
                                    Some(x) => out.push((m0, Ok(x.w()))),
                                    None => {
                                        let k = it.last_error().map(|e| e.kind()).unwrap_or(RandErrKind::InvalidRngPara);
                                        out.push((m0, Err(k)));
                                        it.clear_error();
                                    }
                                }
                            }
                            out
                        })
                    })?;
                    let log = hw.borrow();
                    for (i, (m0, r)) in res.iter().enumerate() {
                        let m1 = res.get(i + 1).map_or(log.log.len(), |x| x.0);
                        let ev = &log.log[*m0..m1];
                        cx.faultn("rdrand_underflow", ev.iter().filter(|e| !e.1).count() as u64);
                        let r = match r {
                            Ok(x) => Ok(*x),
                            Err(k) => Err(RandError::new(*k, "")),
                        };
                        cx.obs(r.as_ref().map_or(0, |x| *x));
                        cx.check();
                        judge("iterator", bits, &r, ev, gen_err)?;
                    }
                }
            }
            9 => {
                // the hardware seed source behind a software engine
                let k = s.arg(1) % 8;
                let r: Option<Result<(), RandError>> = match ss[at].as_ref() {
                    Some(S::S32(sd)) => {
                        let sd = sd.clone();
                        quiet = false;
                        Some(must("engine from hardware seed", || match k % 3 {
                            0 => rmath::minstd_rand0!(sd).map(|_| ()),
                            1 => rmath::mt19937!(sd).map(|_| ()),
                            _ => rmath::ranlux24_base!(sd).map(|_| ()),
                        })?)
                    }
                    Some(S::S64(sd)) => {
                        let sd = sd.clone();
                        quiet = false;
                        Some(must("engine from hardware seed", || match k % 2 {
                            0 => rmath::mt19937_64!(sd).map(|_| ()),
                            _ => rmath::ranlux48_base!(sd).map(|_| ()),
                        })?)
                    }
                    _ => None,
                };
                if let Some(r) = r {
                    let h = hw.borrow();
                    let ev = &h.log[mark..];
                    cx.faultn("rdseed_underflow", ev.iter().filter(|e| !e.1).count() as u64);
                    cx.check();
                    let ok = ev.last().map_or(false, |e| e.1);
                    ensure!(r.is_ok() == ok, "seed-outcome", "constructing an engine from the hardware seed gave ok={} with steps {:x?}", r.is_ok(), ev);
                    if let Err(e) = r {
                        ensure!(kind_no(e.kind()) == kind_no(seed_err), "error-kind", "constructing an engine from the hardware seed reported {:?}", e.kind());
                    }
                }
            }
            10 => {
                hw.borrow_mut().dead = true;
                cx.probe("total_outage");
            }
            11 => hw.borrow_mut().dead = false,
            _ => {}
        }
        let used = hw.borrow().log.len() - mark;
        ensure!(!quiet || used == 0, format!("consumes:{}", OPS[s.op as usize]), "{} consumed {} hardware steps", OPS[s.op as usize], used);
    }
    // faults stop: everything delivers again at once
    {
        let mut h = hw.borrow_mut();
        h.dead = false;
        h.faults = [Faults::none(), Faults::none()];
    }
    for g in rs.iter_mut().flatten() {
        let mark = hw.borrow().log.len();
        let r = must("gen", || g.gen())?;
        ensure!(r.is_ok(), "no-recovery", "a generator still fails after the processor recovered");
        judge("gen", g.bits(), &r, &hw.borrow().log[mark..], gen_err)?;
        cx.check();
    }
    for g in ss.iter().flatten() {
        let mark = hw.borrow().log.len();
        let r = must("seed", || g.seed())?;
        ensure!(r.is_ok(), "no-recovery", "a seed source still fails after the processor recovered");
        judge("seed", g.bits(), &r, &hw.borrow().log[mark..], seed_err)?;
        cx.check();
    }
    Ok(())
}

pub const C12: PropDef = PropDef {
    id: "C12", ops: OPS, gen, exec, builds: &[("native", 1)], quick: 480000, thorough: 6000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one word request was judged against the processor's own log and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["DefaultRand (rdrand)", "CryptoRand", "DefaultSeed (rdseed)", "Iter", "engine construction from a hardware seed"],
    stub: &["the rdrand/rdseed instructions (simulated processor)"],
    assumptions: &["a call may retry a failed instruction; it is judged by the last step it made", "the 32-bit x86 code paths are not compiled"],
    must_reach: &["rdrand_underflow", "rdseed_underflow", "total_outage"],
};
