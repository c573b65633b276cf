//! C03: owners iterate over failing sources; every word and every error is unique and logged.
use super::hw::Hw;
use crate::core::*;
use crate::prng::{mix, Prng};
use crate::simrng::{kind_no, Faults, KINDS};
use rmath::rand::{CryptoRand, DefaultRand, DefaultSeed, Iter, IterSource, PrimitiveType, RandErrKind, RandError, Seed, Source};
use std::cell::RefCell;
use std::rc::Rc;

/// what the source did: a word, or an error with kind and message
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Word(u64),
    Fail(u64, String),
}

struct Script {
    log: Rc<RefCell<Vec<Ev>>>,
    faults: Faults,
    seed: u64,
    calls: u64,
    failed: u64,
    /// words left before the source runs dry
    left: Rc<RefCell<u64>>,
}
impl Script {
    fn step(&mut self) -> Result<u64, RandError> {
        let c = self.calls;
        self.calls += 1;
        if *self.left.borrow() == 0 || self.failed < self.faults.cap && self.faults.hits(c) {
            self.failed += 1;
            let k = KINDS[(mix(self.seed, c) % 3) as usize];
            let msg = format!("source failure {}", c);
            self.log.borrow_mut().push(Ev::Fail(kind_no(k), msg.clone()));
            return Err(RandError::new(k, msg));
        }
        *self.left.borrow_mut() -= 1;
        let w = mix(self.seed, c << 20);
        self.log.borrow_mut().push(Ev::Word(w));
        Ok(w)
    }
}
impl Source<u64> for Script {
    fn gen(&mut self) -> Result<u64, RandError> {
        self.step()
    }
    fn reset<Sd: Seed<u64>>(&mut self, _: &Sd) -> Result<(), RandError> {
        Ok(())
    }
}
impl Source<usize> for Script {
    fn gen(&mut self) -> Result<usize, RandError> {
        self.step().map(|x| x as usize)
    }
    fn reset<Sd: Seed<usize>>(&mut self, _: &Sd) -> Result<(), RandError> {
        Ok(())
    }
}
impl Source<u32> for Script {
    fn gen(&mut self) -> Result<u32, RandError> {
        self.step().map(|x| x as u32)
    }
    fn reset<Sd: Seed<u32>>(&mut self, _: &Sd) -> Result<(), RandError> {
        Ok(())
    }
}

trait Drive {
    fn next(&mut self) -> Option<u64>;
    fn take(&mut self, n: usize) -> Vec<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn each(&mut self, n: usize) -> Vec<u64>;
    fn skip(&mut self, a: usize, n: usize) -> Vec<u64>;
    fn step(&mut self, by: usize, n: usize) -> Vec<u64>;
    fn last(&mut self, n: usize) -> Option<u64>;
    fn count(&mut self, n: usize) -> usize;
    fn zip(&mut self, n: usize) -> Vec<u64>;
    /// give the iterator away to something that runs it to its end
    fn consume(&mut self, how: u64, words: u64) -> Vec<u64>;
    /// stop at the word number n
    fn find(&mut self, how: u64, n: usize) -> Vec<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn last_error(&self) -> Option<(u64, String)>;
    fn clear(&mut self);
    fn recreate(&mut self, how: u64);
    fn direct(&mut self) -> Result<u64, (u64, String)>;
    /// events the source produced so far
    fn events(&self) -> Vec<Ev>;
    fn bits(&self) -> u32;
}

struct Drv<S: Source<P> + 'static, P: PrimitiveType + 'static> {
    it: Option<Iter<'static, S, P>>,
    src: *mut S,
    viamut: fn(&'static mut S) -> Iter<'static, S, P>,
    conv: fn(P) -> u64,
    ev: Box<dyn Fn() -> Vec<Ev>>,
    left: Rc<RefCell<u64>>,
    bits: u32,
}
impl<S: Source<P> + 'static, P: PrimitiveType + 'static> Drv<S, P> {
    fn new(s: S, bits: u32, viamut: fn(&'static mut S) -> Iter<'static, S, P>, conv: fn(P) -> u64, ev: Box<dyn Fn() -> Vec<Ev>>, left: &Rc<RefCell<u64>>) -> Box<Drv<S, P>> {
        let mut d = Box::new(Drv { it: None, src: Box::into_raw(Box::new(s)), viamut, conv, ev, left: left.clone(), bits });
        d.recreate(0);
        d
    }
}
impl<S: Source<P> + 'static, P: PrimitiveType + 'static> Drop for Drv<S, P> {
    fn drop(&mut self) {
        self.it = None;
        unsafe { drop(Box::from_raw(self.src)) }
    }
}
impl<S: Source<P> + 'static, P: PrimitiveType + 'static> Drive for Drv<S, P> {
    fn next(&mut self) -> Option<u64> {
        self.it.as_mut().unwrap().next().map(self.conv)
    }
    fn take(&mut self, n: usize) -> Vec<u64> {
        self.it.as_mut().unwrap().by_ref().take(n).map(self.conv).collect()
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.it.as_mut().unwrap().nth(n).map(self.conv)
    }
    fn each(&mut self, n: usize) -> Vec<u64> {
        let mut v = vec![];
        if n > 0 {
            for x in self.it.as_mut().unwrap() {
                v.push((self.conv)(x));
                if v.len() >= n {
                    break;
                }
            }
        }
        v
    }
    fn skip(&mut self, a: usize, n: usize) -> Vec<u64> {
        self.it.as_mut().unwrap().by_ref().skip(a).take(n).map(self.conv).collect()
    }
    fn step(&mut self, by: usize, n: usize) -> Vec<u64> {
        self.it.as_mut().unwrap().by_ref().step_by(by).take(n).map(self.conv).collect()
    }
    fn last(&mut self, n: usize) -> Option<u64> {
        self.it.as_mut().unwrap().by_ref().take(n).last().map(self.conv)
    }
    fn count(&mut self, n: usize) -> usize {
        self.it.as_mut().unwrap().by_ref().take(n).count()
    }
    fn zip(&mut self, n: usize) -> Vec<u64> {
        let c = self.conv;
        (0..n).zip(self.it.as_mut().unwrap()).fold(vec![], |mut v, (_, x)| {
            v.push(c(x));
            v
        })
    }
    fn consume(&mut self, how: u64, words: u64) -> Vec<u64> {
        let c = self.conv;
        let it = self.it.take().unwrap();
        *self.left.borrow_mut() = words;
        let mut v = vec![];
        match how % 8 {
            0 => v = it.fold(v, |mut v, x| {
                v.push(c(x));
                v
            }),
            1 => it.for_each(|x| v.push(c(x))),
            2 => v.extend(it.last().map(c)),
            3 => v.push(it.count() as u64),
            4 => v = it.collect::<Vec<P>>().into_iter().map(c).collect(),
            5 => v = it.take(words as usize + 3).map(c).collect(),
            6 => v = it.enumerate().map(|(_, x)| c(x)).collect(),
            _ => v = it.skip_while(|_| false).fuse().map(c).collect(),
        }
        *self.left.borrow_mut() = u64::MAX;
        self.recreate(0);
        v
    }
    fn find(&mut self, how: u64, n: usize) -> Vec<u64> {
        let c = self.conv;
        let it = self.it.as_mut().unwrap();
        let (mut v, mut k) = (vec![], 0);
        let mut stop = |x: u64| {
            k += 1;
            v.push(x);
            k == n
        };
        if n > 0 {
            match how % 6 {
                0 => {
                    it.any(|x| stop(c(x)));
                }
                1 => {
                    it.all(|x| !stop(c(x)));
                }
                2 => {
                    it.position(|x| stop(c(x)));
                }
                3 => {
                    it.find_map(|x| Some(()).filter(|_| stop(c(x))));
                }
                4 => {
                    it.try_fold((), |_, x| if stop(c(x)) { None } else { Some(()) });
                }
                _ => {
                    let _ = it.try_for_each(|x| if stop(c(x)) { Err(()) } else { Ok(()) });
                }
            }
        }
        v
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.as_ref().unwrap().size_hint()
    }
    fn last_error(&self) -> Option<(u64, String)> {
        self.it.as_ref().unwrap().last_error().map(|e| (kind_no(e.kind()), e.to_string()))
    }
    fn clear(&mut self) {
        self.it.as_mut().unwrap().clear_error()
    }
    fn recreate(&mut self, how: u64) {
        self.it = None;
        let s: &'static mut S = unsafe { &mut *self.src };
        self.it = Some(if how % 2 == 0 { (self.viamut)(s) } else { Iter::new(s) });
    }
    fn direct(&mut self) -> Result<u64, (u64, String)> {
        self.it = None;
        let r = unsafe { &mut *self.src }.gen();
        self.recreate(0);
        r.map(self.conv).map_err(|e| (kind_no(e.kind()), e.to_string()))
    }
    fn events(&self) -> Vec<Ev> {
        (self.ev)()
    }
    fn bits(&self) -> u32 {
        self.bits
    }
}

pub const OPS: &[&str] = &["open", "next", "take", "nth", "for", "last_error", "clear_error", "recreate", "direct", "drain", "skip", "step_by", "last", "count", "zip", "consume", "find"];

fn gen(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 4);
    let len = if thorough { r.range(10, 150) } else { r.range(8, 60) };
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        let open = |r: &mut Prng| {
            let mut a = vec![r.below(9), r.u64() >> 16];
            a.extend(Faults::gen(r));
            a
        };
        st(0, open(r));
        for _ in 0..len / tasks + 3 {
            match r.weighted(&[2, 48, 16, 8, 8, 20, 18, 10, 6, 4, 3, 3, 3, 3, 3, 5, 5]) {
                0 => st(0, open(r)),
                k @ (2 | 3 | 4 | 12..=14) => st(k as u32, vec![r.below(12)]),
                15 => st(15, vec![r.below(8), r.below(10)]),
                16 => st(16, vec![r.below(6), r.below(10)]),
                k @ (10 | 11) => st(k as u32, vec![r.below(6), r.below(6)]),
                7 => st(7, vec![r.below(2)]),
                k => st(k as u32, vec![]),
            }
        }
        progs.push(p);
    }
    let mut cfg = vec![r.u64() >> 1];
    cfg.extend(Faults::gen(r));
    Plan { cfg, steps: super::interleave(r, progs) }
}

struct Live {
    d: Box<dyn Drive>,
    /// the error the iterator must be holding
    latched: Option<(u64, String)>,
    hw: bool,
}

fn open(kind: u64, seed: u64, f: Faults, hw: &Rc<RefCell<Hw>>) -> Live {
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    let left = Rc::new(RefCell::new(u64::MAX));
    let sc = Script { log, faults: f, seed, calls: 0, failed: 0, left: left.clone() };
    let ev: Box<dyn Fn() -> Vec<Ev>> = Box::new(move || l2.borrow().clone());
    let h = hw.clone();
    let hev: Box<dyn Fn() -> Vec<Ev>> = Box::new(move || {
        let k = kind_no(RandErrKind::NoNewRandNumberGen);
        h.borrow().log.iter().map(|e| if e.1 { Ev::Word(e.2) } else { Ev::Fail(k, String::new()) }).collect()
    });
    let (d, hw): (Box<dyn Drive>, bool) = match kind {
        0 => (Drv::<Script, u32>::new(sc, 32, |s| Iter::new(s), |x| x as u64, ev, &left), false),
        1 => (Drv::<Script, u64>::new(sc, 64, |s| Iter::new(s), |x| x, ev, &left), false),
        2 => (Drv::<Script, usize>::new(sc, 64, |s| Iter::new(s), |x| x as u64, ev, &left), false),
        3 => (Drv::<DefaultRand<u32>, u32>::new(DefaultRand::new(&DefaultSeed::<u32>::new().unwrap()).unwrap(), 32, |s| s.iter_mut(), |x| x as u64, hev, &left), true),
        4 => (Drv::<CryptoRand<u64>, u64>::new(CryptoRand::new(&DefaultSeed::<u64>::new().unwrap()).unwrap(), 64, |s| s.iter_mut(), |x| x as u64, hev, &left), true),
        5 => (Drv::<DefaultRand<usize>, usize>::new(DefaultRand::new(&DefaultSeed::<usize>::new().unwrap()).unwrap(), 64, |s| s.iter_mut(), |x| x as u64, hev, &left), true),
        6 => (Drv::<DefaultRand<u64>, u64>::new(DefaultRand::new(&DefaultSeed::<u64>::new().unwrap()).unwrap(), 64, |s| s.iter_mut(), |x| x as u64, hev, &left), true),
        7 => (Drv::<CryptoRand<u32>, u32>::new(CryptoRand::new(&DefaultSeed::<u32>::new().unwrap()).unwrap(), 32, |s| s.iter_mut(), |x| x as u64, hev, &left), true),
        _ => (Drv::<CryptoRand<usize>, usize>::new(CryptoRand::new(&DefaultSeed::<usize>::new().unwrap()).unwrap(), 64, |s| s.iter_mut(), |x| x as u64, hev, &left), true),
    };
    Live { d, latched: None, hw }
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let hw = Hw::start(plan.cfg(0), Faults::from_args(plan.cfg.get(1..).unwrap_or(&[])), Faults::none());
    let mut live: Vec<Option<Live>> = (0..8).map(|_| None).collect();
    for s in &plan.steps {
        cx.sched(s);
        let t = s.task as usize % 8;
        if s.op == 0 {
            live[t] = Some(open(s.arg(0) % 9, s.arg(1), Faults::from_args(&s.a[2.min(s.a.len())..]), &hw));
            continue;
        }
        let l = match live[t].as_mut() {
            Some(l) => l,
            None => continue,
        };
        let m = if l.d.bits() == 32 { 0xffff_ffffu64 } else { u64::MAX };
        let before = l.d.events().len();
        // a word request: k words wanted; `got` what came out, stopping at the first None
        let mut request: Option<(usize, Vec<u64>, Pick)> = None;
        let d = &mut l.d;
        let hint = must("size_hint", || d.hint())?;
        ensure!(d.events().len() == before, "touched:size_hint", "size_hint drew from the source");
        match s.op {
            1 => {
                let x = must("next", || d.next())?;
                request = Some((1, x.into_iter().collect(), Pick::All));
            }
            2 => {
                let k = s.idx(0, 40);
                request = Some((k, must("take", || d.take(k))?, Pick::All));
            }
            3 => {
                let k = s.idx(0, 40);
                let x = must("nth", || d.nth(k))?;
                request = Some((k + 1, x.into_iter().collect(), Pick::Asked));
            }
            4 => {
                let k = s.idx(0, 40);
                request = Some((k, must("for", || d.each(k))?, Pick::All));
            }
            5 => {
                let e = must("last_error", || d.last_error())?;
                cx.check();
                cx.obs(e.as_ref().map_or(0, |x| x.0));
                same_err(&e, &l.latched, l.hw, "last_error")?;
                ensure!(d.events().len() == before, "touched:last_error", "last_error drew from the source");
            }
            6 => {
                must("clear_error", || d.clear())?;
                l.latched = None;
                let e = must("last_error", || d.last_error())?;
                ensure!(e.is_none(), "not-cleared", "clear_error left '{:?}' behind", e);
                ensure!(d.events().len() == before, "touched:clear_error", "clear_error drew from the source");
            }
            7 => {
                must("recreate", || d.recreate(s.arg(0)))?;
                l.latched = None;
                let e = must("last_error", || d.last_error())?;
                ensure!(e.is_none(), "stale-error", "a fresh iterator reports '{:?}'", e);
                ensure!(d.events().len() == before, "touched:recreate", "dropping and re-creating the iterator drew from the source");
            }
            8 => {
                // the owner uses the source itself between two iterators
                let r = must("direct", || d.direct())?;
                l.latched = None;
                cx.obs(r.as_ref().map_or(0, |x| *x));
            }
            9 => {
                // insist: next, clearing every error, until a word arrives
                let mut tries = 0;
                loop {
                    let b = d.events().len();
                    let held = l.latched.is_some();
                    let x = must("next", || d.next())?;
                    let ev = d.events()[b..].to_vec();
                    ensure!(!held || ev.is_empty(), "not-fail-stop", "the source was touched while an error was pending");
                    match x {
                        Some(x) => {
                            ensure!(matches!(ev.last(), Some(Ev::Word(w)) if w & m == x), "wrong-word", "next yielded {:#x}, the source delivered {:?}", x, ev);
                            break;
                        }
                        None => {
                            ensure!(held || matches!(ev.last(), Some(Ev::Fail(..))), "lost-word", "next yielded nothing, the source delivered {:?}", ev);
                            must("clear_error", || d.clear())?;
                            l.latched = None;
                        }
                    }
                    tries += 1;
                    if tries > 1500 {
                        break;
                    }
                }
                cx.check();
            }
            10 => {
                let (a, k) = (s.idx(0, 40), s.idx(1, 40));
                let want = if k == 0 { 0 } else { a + k };
                request = Some((want, must("skip", || d.skip(a, k))?, Pick::From(a)));
            }
            11 => {
                let (by, k) = (s.idx(0, 40) + 1, s.idx(1, 40));
                let want = if k == 0 { 0 } else { 1 + (k - 1) * by };
                request = Some((want, must("step_by", || d.step(by, k))?, Pick::Every(by)));
            }
            12 => {
                let k = s.idx(0, 40);
                request = Some((k, must("last", || d.last(k))?.into_iter().collect(), Pick::Last));
            }
            13 => {
                let k = s.idx(0, 40);
                request = Some((k, vec![must("count", || d.count(k))? as u64], Pick::Count));
            }
            15 if !l.hw => {
                // the iterator is given away; the source runs dry after a few words
                let (k, held) = (s.arg(1) % 40, l.latched.is_some());
                let got = must("consume", || d.consume(s.arg(0), k))?;
                let ev = d.events()[before..].to_vec();
                cx.check();
                got.iter().for_each(|&x| cx.obs(x));
                let words: Vec<u64> = ev.iter().filter_map(|e| if let Ev::Word(w) = e { Some(w & m) } else { None }).collect();
                let want: Vec<u64> = match s.arg(0) % 8 {
                    2 => words.last().copied().into_iter().collect(),
                    3 => vec![words.len() as u64],
                    _ => words.clone(),
                };
                let how = ["fold", "for_each", "last", "count", "collect", "take", "enumerate", "skip_while"][s.idx(0, 8)];
                ensure!(!held || ev.is_empty(), "not-fail-stop", "{} touched the source while an error was pending: {:x?}", how, ev);
                ensure!(held || ev.iter().position(|e| matches!(e, Ev::Fail(..))) == Some(ev.len().wrapping_sub(1)), "not-fail-stop", "{} did not stop at the first failure: {:x?}", how, ev);
                ensure!(got == want, "wrong-word", "{} gave {:x?}, the source delivered {:x?}", how, got, words);
                cx.probe(if held { "given_away_while_failed" } else { "given_away" });
                l.latched = None;
            }
            16 => {
                let k = s.arg(1) as usize % 40;
                request = Some((k, must("find", || d.find(s.arg(0), k))?, Pick::All));
            }
            14 => {
                let k = s.idx(0, 40);
                request = Some((k, must("zip", || d.zip(k))?, Pick::All));
            }
            _ => {}
        }
        if let Some((k, got, pick)) = request {
            let ev = l.d.events()[before..].to_vec();
            cx.check();
            got.iter().for_each(|&x| cx.obs(x));
            cx.say(|| format!("task {}: {}({}) -> {:x?}; source did {:x?}; pending error {:?}", t, OPS[s.op as usize], k, got, ev, l.latched));
            if l.latched.is_some() {
                ensure!(got.is_empty() || matches!(pick, Pick::Count) && got == [0], "not-fail-stop", "{} yielded {:x?} while an error was pending", OPS[s.op as usize], got);
                ensure!(ev.is_empty(), "not-fail-stop", "{} touched the source while an error was pending", OPS[s.op as usize]);
                cx.probe("asked_while_failed");
                let e = must("last_error", || l.d.last_error())?;
                same_err(&e, &l.latched, l.hw, "last_error after a refused request")?;
            } else {
                // hardware sources may retry inside one request: only the outcome of a request counts
                let words: Vec<u64> = ev.iter().filter_map(|e| if let Ev::Word(w) = e { Some(w & m) } else { None }).collect();
                let failed = if l.hw { matches!(ev.last(), Some(Ev::Fail(..))) } else { ev.iter().any(|e| matches!(e, Ev::Fail(..))) };
                if !l.hw {
                    if let Some(i) = ev.iter().position(|e| matches!(e, Ev::Fail(..))) {
                        ensure!(i + 1 == ev.len(), "not-fail-stop", "the source was asked again after it failed: {:x?}", ev);
                    }
                }
                ensure!(words.len() <= k, "over-drawn", "{} of {} words drew {} words from the source", OPS[s.op as usize], k, words.len());
                if !failed {
                    ensure!(words.len() == k, "short", "{} of {} words stopped after {} although the source did not fail", OPS[s.op as usize], k, words.len());
                }
                let want: Vec<u64> = match pick {
                    Pick::All => words.clone(),
                    Pick::Asked if failed => vec![],
                    Pick::Asked | Pick::Last => words.last().copied().into_iter().collect(),
                    Pick::From(a) => words.iter().copied().skip(a).collect(),
                    Pick::Every(n) => words.iter().copied().step_by(n).collect(),
                    Pick::Count => vec![words.len() as u64],
                };
                ensure!(got == want, "wrong-word", "{} over {} words gave {:x?} instead of {:x?}; the source delivered {:x?}", OPS[s.op as usize], k, got, want, words);
                if failed {
                    ensure!(hint.0 <= words.len(), "wrong-hint", "size_hint promised {} words, the source failed after {}", hint.0, words.len());
                } else if let Some(h) = hint.1 {
                    ensure!(h >= words.len(), "wrong-hint", "size_hint allowed {} words, {} came", h, words.len());
                }
                if failed {
                    cx.fault("source_error");
                    l.latched = match ev.last() {
                        Some(Ev::Fail(k, m)) => Some((*k, m.clone())),
                        _ => None,
                    };
                }
                let e = must("last_error", || l.d.last_error())?;
                same_err(&e, &l.latched, l.hw, "last_error after a request")?;
            }
        }
    }
    Ok(())
}

/// which of the drawn words a request hands out
enum Pick {
    All,
    Asked,
    Last,
    From(usize),
    Every(usize),
    Count,
}

fn same_err(got: &Option<(u64, String)>, want: &Option<(u64, String)>, hw: bool, what: &str) -> Check {
    let same = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => g.0 == w.0 && (hw || g.1 == w.1),
        _ => false,
    };
    ensure!(same, "wrong-error", "{} is {:?}, the pending error is {:?}", what, got, want);
    Ok(())
}

pub const C03: PropDef = PropDef {
    id: "C03", ops: OPS, gen, exec, builds: &[("native", 1)], quick: 480000, thorough: 6000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one request was compared with the log of the source and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Iter", "iter_mut of DefaultRand and CryptoRand", "RandError"],
    stub: &["caller's random source (scripted, unique words and errors)", "rdrand (simulated processor)"],
    assumptions: &["a hardware source may retry the instruction inside one request"],
    must_reach: &["source_error", "asked_while_failed", "given_away", "given_away_while_failed"],
};
