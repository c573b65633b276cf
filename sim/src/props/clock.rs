//! C13: the portable, clock-based seed source and generator on simulated clocks.
use crate::core::*;
use crate::prng::{mix, Prng};
use crate::simos::{install_clock, with_clock};
use crate::simrng::SimSeed;
use rmath::rand::{DefaultRand, DefaultSeed, IterSource, RandError, Seed, Source};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const NS: i128 = 1_000_000_000;

#[derive(Clone)]
struct Clocks {
    wall: i128,
    mono: i128,
    /// advance per reading
    wall_step: i128,
    mono_step: i128,
    reads: Vec<(i32, i64, i64)>,
}
impl Clocks {
    fn read(&mut self, clk: i32) -> (i64, i64) {
        // 0, 5: realtime; everything else behaves like a monotonic clock
        let real = clk == 0 || clk == 5;
        let t = if real { &mut self.wall } else { &mut self.mono };
        let (s, n) = (t.div_euclid(NS) as i64, t.rem_euclid(NS) as i64);
        *t += if real { self.wall_step } else { self.mono_step };
        self.reads.push((if real { 0 } else { 1 }, s, n));
        if self.reads.len() > 100_000 {
            std::panic::panic_any(SimPanic::Budget("the clock is polled without end"));
        }
        (s, n)
    }
}

#[derive(Clone)]
enum R {
    D32(DefaultRand<u32>),
    D64(DefaultRand<u64>),
    Dus(DefaultRand<usize>),
}
impl R {
    fn new(ty: u64, seed: Option<u64>) -> Result<R, RandError> {
        macro_rules! go {
            ($T: ty, $V: ident) => {
                DefaultRand::<$T>::new(&match seed {
                    Some(x) => SimSeed::<$T>::ok(x as $T),
                    None => SimSeed::<$T>::err(1, 1),
                })
                .map(R::$V)
            };
        }
        match ty {
            0 => go!(u32, D32),
            1 => go!(u64, D64),
            _ => go!(usize, Dus),
        }
    }
    fn reset(&mut self, seed: Option<u64>) -> Result<(), RandError> {
        macro_rules! go {
            ($g: expr, $T: ty) => {
                $g.reset(&match seed {
                    Some(x) => SimSeed::<$T>::ok(x as $T),
                    None => SimSeed::<$T>::err(1, 1),
                })
            };
        }
        match self {
            R::D32(g) => go!(g, u32),
            R::D64(g) => go!(g, u64),
            R::Dus(g) => go!(g, usize),
        }
    }
    fn gen(&mut self, iter: bool) -> Option<u64> {
        macro_rules! go {
            ($g: expr) => {
                if iter { $g.iter_mut().next().map(|x| x as u64) } else { $g.gen().ok().map(|x| x as u64) }
            };
        }
        match self {
            R::D32(g) => go!(g),
            R::D64(g) => go!(g),
            R::Dus(g) => go!(g),
        }
    }
}

pub const OPS: &[&str] = &["seed", "new", "gen", "reset", "reset_fails", "new_fails", "clone", "drop", "set_wall", "set_mono", "set_rates", "race"];
const SL: u64 = 3;

/// plan argument -> instant in ns since the epoch
fn instant(a: u64) -> i128 {
    let mag = (a >> 8) as i128;
    let small = (mag & 0xffff_ffff) as i128;
    match a % 12 {
        0 => 0,
        1 => -1,
        2 => mag % (40 * NS),
        3 => -(mag % (40 * NS)),
        4 => 1_700_000_000 * NS + mag % (1000 * NS),
        5 => -(mag % (1 << 50)) * NS,
        6 => (mag % (1 << 50)) * NS + NS - 1,
        7 => NS - 1,
        8 => small * 1000,
        9 => 1_700_000_000 * NS + (mag % 64) * 1000, // neighbouring microseconds
        10 => -NS * (1i128 << 55) + small,
        _ => (mag % 256) * 1000,
    }
}

fn gen(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 4);
    let len = if thorough { r.range(10, 100) } else { r.range(8, 40) };
    let mut progs = vec![];
    // few distinct instants and seeds, so that readings and states repeat
    let inst: Vec<u64> = (0..4).map(|_| r.u64() >> 4).collect();
    let seeds: Vec<u64> = vec![0, 1, r.spicy64(), r.u64(), u64::MAX];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        st(1, vec![0, r.below(3), *r.pick(&seeds)]);
        for _ in 0..len / tasks + 3 {
            let slot = r.below(SL);
            match r.weighted(&[14, 3, 20, 4, 3, 1, 3, 1, 10, 6, 3, 5]) {
                0 => st(0, vec![r.below(3)]),
                1 => st(1, vec![slot, r.below(3), *r.pick(&seeds)]),
                2 => st(2, vec![slot, r.below(2)]),
                3 => st(3, vec![slot, *r.pick(&seeds)]),
                6 => st(6, vec![slot, r.below(tasks), r.below(SL)]),
                k @ (8 | 9) => st(k as u32, vec![if r.chance(3, 4) { *r.pick(&inst) } else { r.u64() >> 4 }]),
                10 => st(10, vec![*r.pick(&[0, 0, 1, 999, 1000, 16_000, 1 << 40, u64::MAX]), *r.pick(&[0, 0, 1, 40, 1000])]),
                11 => st(11, vec![r.below(3), *r.pick(&seeds), *r.pick(&seeds), r.u64() >> 4, r.range(1, 8), r.below(4)]),
                k => st(k as u32, vec![slot]),
            }
        }
        progs.push(p);
    }
    Plan { cfg: vec![r.u64() >> 4, r.u64() >> 4], steps: super::interleave(r, progs) }
}

struct Live {
    g: R,
    ty: u64,
    seed: u64,
    /// hash of all readings since the last seeding, and how many words were drawn
    hist: u64,
    words: u64,
}

fn rates(a: u64, b: u64) -> (i128, i128) {
    // wall clocks may run backwards while being read; monotonic ones may not
    (if a == u64::MAX { -1000 } else { (a % (1 << 41)) as i128 }, (b % (1 << 20)) as i128)
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let clk = Rc::new(RefCell::new(Clocks { wall: instant(plan.cfg(0)), mono: instant(plan.cfg(1)).abs(), wall_step: 0, mono_step: 0, reads: vec![] }));
    let c2 = clk.clone();
    install_clock(Box::new(move |id| c2.borrow_mut().read(id)));
    let n = 8 * SL as usize;
    let mut live: Vec<Option<Live>> = (0..n).map(|_| None).collect();
    // readings -> seed, per type; and 64-bit seed -> wall reading
    let mut seen: BTreeMap<(u64, Vec<(i32, i64, i64)>), u64> = BTreeMap::new();
    let mut from: BTreeMap<u64, Vec<(i64, i64)>> = BTreeMap::new();
    // (type, history of readings) -> word -> seed: words of one position
    let mut words: BTreeMap<(u64, u64, u64), BTreeMap<u64, u64>> = BTreeMap::new();
    let take = |c: &Rc<RefCell<Clocks>>| std::mem::take(&mut c.borrow_mut().reads);
    let fold = |h: u64, rd: &[(i32, i64, i64)]| rd.iter().fold(mix(h, rd.len() as u64), |h, x| mix(mix(mix(h, x.0 as u64), x.1 as u64), x.2 as u64));
    let narrow = |ty: u64, x: u64| if ty == 0 { x & 0xffff_ffff } else { x };
    for s in &plan.steps {
        cx.sched(s);
        let at = ((s.task as u64 * SL + s.arg(0) % SL) as usize) % n;
        match s.op {
            0 => {
                let ty = s.arg(0) % 3;
                let v = must("seed", || {
                    with_clock(|| match ty {
                        0 => DefaultSeed::<u32>::new().and_then(|x| x.seed()).map(|x| x as u64),
                        1 => DefaultSeed::<u64>::new().and_then(|x| x.seed()),
                        _ => DefaultSeed::<usize>::new().and_then(|x| x.seed()).map(|x| x as u64),
                    })
                })?;
                let rd = take(&clk);
                cx.check();
                let v = match v {
                    Ok(v) => v,
                    Err(e) => return violation("seed-refused", format!("no seed for readings {:?}: {}", rd, e)),
                };
                cx.obs(v);
                cx.say(|| format!("task {}: seed type {} readings {:?} -> {:#x}", s.task, ty, rd, v));
                if rd.iter().any(|x| x.0 == 0 && x.1 < 0) {
                    cx.probe("clock_before_epoch");
                }
                if let Some(&old) = seen.get(&(ty, rd.clone())) {
                    cx.probe("same_readings_again");
                    ensure!(old == v, "not-a-function", "the same readings {:?} gave {:#x} and {:#x}", rd, old, v);
                }
                if ty != 0 {
                    let wall: Vec<(i64, i64)> = rd.iter().filter(|x| x.0 == 0).map(|x| (x.1, x.2)).collect();
                    if let Some(old) = from.get(&v) {
                        ensure!(*old == wall, "insensitive", "wall clock readings {:?} and {:?} give the same seed {:#x}", old, wall, v);
                    }
                    from.insert(v, wall);
                }
                seen.insert((ty, rd), v);
            }
            1 => {
                let ty = s.arg(1) % 3;
                match must("new", || with_clock(|| R::new(ty, Some(s.arg(2)))))? {
                    Ok(g) => {
                        let rd = take(&clk);
                        live[at] = Some(Live { g, ty, seed: narrow(ty, s.arg(2)), hist: fold(0, &rd), words: 0 });
                    }
                    Err(e) => return violation("new-refused", format!("construction failed with a working seed source: {}", e)),
                }
            }
            2 => {
                if let Some(l) = live[at].as_mut() {
                    let v = must("gen", || with_clock(|| l.g.gen(s.arg(1) % 2 == 1)))?;
                    let rd = take(&clk);
                    cx.check();
                    let v = match v {
                        Some(v) => v,
                        None => return violation("gen-refused", format!("no word for readings {:?}", rd)),
                    };
                    cx.obs(v);
                    l.hist = fold(l.hist, &rd);
                    l.words += 1;
                    let e = words.entry((l.ty, l.hist, l.words)).or_default();
                    if let Some(&sd) = e.get(&v) {
                        ensure!(sd == l.seed, "seeds-collide", "seeds {:#x} and {:#x} give the same word {:#x} at position {} for equal readings", sd, l.seed, v, l.words);
                    }
                    for (w, sd) in e.iter() {
                        if *sd == l.seed {
                            cx.probe("same_history_again");
                            ensure!(*w == v, "not-a-function", "seed {:#x} and equal readings gave words {:#x} and {:#x} at position {}", sd, w, v, l.words);
                        }
                    }
                    e.insert(v, l.seed);
                }
            }
            3 => {
                if let Some(l) = live[at].as_mut() {
                    let r = must("reset", || with_clock(|| l.g.reset(Some(s.arg(1)))))?;
                    let rd = take(&clk);
                    ensure!(r.is_ok(), "reset-refused", "reset failed with a working seed source");
                    l.seed = narrow(l.ty, s.arg(1));
                    l.hist = fold(0, &rd);
                    l.words = 0;
                }
            }
            4 => {
                if let Some(l) = live[at].as_mut() {
                    cx.fault("seed_source_error");
                    let r = must("reset", || with_clock(|| l.g.reset(None)))?;
                    take(&clk);
                    cx.check();
                    ensure!(r.is_err(), "seed-error-lost", "reset reported success although the seed source failed");
                }
            }
            5 => {
                cx.fault("seed_source_error");
                let r = must("new", || with_clock(|| R::new(s.arg(0) % 3, None)))?;
                take(&clk);
                cx.check();
                ensure!(r.is_err(), "seed-error-lost", "construction reported success although the seed source failed");
            }
            6 => {
                let src = ((s.arg(1) % 8 * SL + s.arg(2) % SL) as usize) % n;
                if src != at {
                    if let Some(l) = live[src].as_ref() {
                        let c = Live { g: must("clone", || l.g.clone())?, ty: l.ty, seed: l.seed, hist: l.hist, words: l.words };
                        live[at] = Some(c);
                    }
                }
            }
            7 => live[at] = None,
            8 => {
                let mut c = clk.borrow_mut();
                let t = instant(s.arg(0));
                cx.sim_ns = cx.sim_ns.saturating_add((t - c.wall).unsigned_abs().min(1_000_000_000_000_000) as u64);
                cx.fault(if t < c.wall { "wall_clock_jump_back" } else if t == c.wall { "wall_clock_frozen" } else { "wall_clock_jump_forward" });
                c.wall = t;
            }
            9 => {
                clk.borrow_mut().mono = instant(s.arg(0)).abs();
                cx.fault("monotonic_clock_set");
            }
            10 => {
                let (a, b) = rates(s.arg(0), s.arg(1));
                let mut c = clk.borrow_mut();
                c.wall_step = a;
                c.mono_step = b;
                if a == 0 {
                    cx.fault("wall_clock_frozen");
                } else {
                    cx.fault("wall_clock_rate");
                }
            }
            11 => {
                // equal clock scripts for a fresh generator, a reset one, a clone, and one with another seed
                let (ty, s1, s2, t0, cnt) = (s.arg(0) % 3, s.arg(1), s.arg(2), s.arg(3), s.arg(4) % 16);
                let save = clk.borrow().clone();
                let start = |c: &Rc<RefCell<Clocks>>| {
                    let mut c = c.borrow_mut();
                    c.wall = instant(t0);
                    c.mono = instant(t0 >> 7).abs();
                    let (a, b) = rates([0, 1, 1000, u64::MAX][(s.arg(5) % 4) as usize], s.arg(5) % 3);
                    c.wall_step = a;
                    c.mono_step = b;
                };
                let run = |g: &mut R| -> Result<Vec<u64>, Violation> {
                    start(&clk);
                    let mut v = vec![];
                    for i in 0..cnt {
                        match must("gen", || with_clock(|| g.gen(i % 2 == 1)))? {
                            Some(x) => v.push(x),
                            None => return violation("gen-refused", "no word"),
                        }
                    }
                    Ok(v)
                };
                let mk = |x: u64| match must("new", || with_clock(|| R::new(ty, Some(x))))? {
                    Ok(g) => Ok(g),
                    Err(_) => violation("new-refused", "construction failed with a working seed source"),
                };
                let mut g1 = mk(s1)?;
                let w1 = run(&mut g1)?;
                // a used generator, reset
                let mut g2 = mk(s2)?;
                let _ = run(&mut g2)?;
                let r = must("reset", || with_clock(|| g2.reset(Some(s1))))?;
                ensure!(r.is_ok(), "reset-refused", "reset failed with a working seed source");
                let w2 = run(&mut g2)?;
                ensure!(w1 == w2, "reset-differs", "seed {:#x}: fresh {:x?}, after reset {:x?}", s1, w1, w2);
                // a failed reset in the middle changes nothing
                let mut a = g2.clone();
                let mut b = g2;
                let r = must("reset", || with_clock(|| b.reset(None)))?;
                cx.fault("seed_source_error");
                ensure!(r.is_err(), "seed-error-lost", "reset reported success although the seed source failed");
                let (wa, wb) = (run(&mut a)?, run(&mut b)?);
                ensure!(wa == wb, "failed-reset-changes", "after a failed reset {:x?}, without it {:x?}", wb, wa);
                if narrow(ty, s1) != narrow(ty, s2) {
                    let mut g3 = mk(s2)?;
                    let w3 = run(&mut g3)?;
                    for (i, (x, y)) in w1.iter().zip(&w3).enumerate() {
                        ensure!(x != y, "seeds-collide", "seeds {:#x} and {:#x} give the same word {:#x} at position {}", s1, s2, x, i);
                    }
                }
                if ty != 0 {
                    // the same history up to here, and one more word at different wall clock readings
                    let d = [1, 16, 1000, NS, 16_000][(s.arg(5) / 16 % 5) as usize];
                    let (mut p, mut q) = (b.clone(), b.clone());
                    let mut at = |g: &mut R, d: i128| {
                        {
                            let mut c = clk.borrow_mut();
                            c.wall = instant(t0) + d;
                            c.mono = 77;
                            c.wall_step = 0;
                            c.mono_step = 0;
                        }
                        must("gen", || with_clock(|| g.gen(false)))
                    };
                    let (x, y) = (at(&mut p, 0)?, at(&mut q, d)?);
                    ensure!(x != y, "insensitive", "the word {:x?} is the same {} ns later", x, d);
                }
                // seeds taken from what the clock yields at these very readings, and from words drawn before
                start(&clk);
                let at_start = must("seed", || {
                    with_clock(|| match ty {
                        0 => DefaultSeed::<u32>::new().and_then(|x| x.seed()).map(|x| x as u64),
                        _ => DefaultSeed::<u64>::new().and_then(|x| x.seed()),
                    })
                })?;
                let mut sd = vec![s1, s2, 0, 1];
                if let Ok(v) = at_start {
                    sd.extend([v, !v, v ^ 1, v ^ s1]);
                }
                if let Some(&x) = w1.first() {
                    sd.extend([x, !x, x ^ s1]);
                }
                if let Some(&x) = w1.last() {
                    sd.extend([x, x ^ s1]);
                }
                sd.iter_mut().for_each(|x| *x = narrow(ty, *x));
                sd.sort_unstable();
                sd.dedup();
                let mut table: Vec<BTreeMap<u64, u64>> = vec![BTreeMap::new(); cnt as usize];
                for &x in &sd {
                    let mut g = mk(x)?;
                    for (i, w) in run(&mut g)?.into_iter().enumerate() {
                        if let Some(y) = table[i].insert(w, x) {
                            return violation("seeds-collide", format!("seeds {:#x} and {:#x} give the same word {:#x} at position {}", y, x, w, i));
                        }
                    }
                }
                cx.probe("seeds_from_the_clock");
                w1.iter().for_each(|&x| cx.obs(x));
                cx.check();
                cx.probe("race");
                *clk.borrow_mut() = save;
            }
            _ => {}
        }
        clk.borrow_mut().reads.clear();
    }
    Ok(())
}

pub const C13: PropDef = PropDef {
    id: "C13", ops: OPS, gen, exec, builds: &[("portable", 1)], quick: 480000, thorough: 6000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one seed or word was compared with an earlier one or judged for totality and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["portable DefaultSeed", "portable DefaultRand", "Iter"],
    stub: &["clock_gettime (interposed at link time)", "caller's seed source (scripted)"],
    assumptions: &["wall clock within +-2^55 s of the epoch", "64-bit hash collisions between distinct readings of one run are not expected (probability below 1e-15 per run)"],
    must_reach: &["clock_before_epoch", "same_readings_again", "same_history_again", "wall_clock_jump_back", "race", "seeds_from_the_clock"],
};
