//! C04: random integers below a bound, drawn by several tasks through shared failing sources.
use crate::core::*;
use crate::prng::{mix, Prng};
use crate::refint::U;
use crate::simrng::{prefix, Faults, SimRng};
use rmath::bigint::{BigInt, Nat};
use rmath::rand::IterSource;

pub const OPS: &[&str] = &["bound", "source", "draw", "draw_hw", "share", "spread", "poke", "reach"];

/// a bound: natural or integer
enum V {
    N(Nat),
    I(BigInt),
}
impl V {
    fn limbs(&self) -> Vec<u32> {
        match self {
            V::N(n) => n.as_ref().to_vec(),
            V::I(i) => AsRef::<[u32]>::as_ref(AsRef::<Nat>::as_ref(i)).to_vec(),
        }
    }
    fn neg(&self) -> bool {
        matches!(self, V::I(i) if i.is_negative())
    }
    fn nan(&self) -> bool {
        match self {
            V::N(n) => n.is_nan(),
            V::I(i) => i.is_nan(),
        }
    }
    fn random<R: IterSource<u32>>(&self, r: &mut R) -> V {
        match self {
            V::N(n) => V::N(n.random(r)),
            V::I(i) => V::I(i.random(r)),
        }
    }
    fn deep(&self) -> V {
        match self {
            V::N(n) => V::N(n.deep_clone()),
            V::I(i) => V::I(i.deep_clone()),
        }
    }
    fn share(&self) -> V {
        match self {
            V::N(n) => V::N(n.clone()),
            V::I(i) => V::I(i.clone()),
        }
    }
    fn bump(&mut self) {
        match self {
            V::N(n) => *n += 1u32,
            V::I(i) => *i += BigInt::from(1u32),
        }
    }
    fn read(&self) -> (bool, bool, Vec<u32>) {
        (self.nan(), self.neg(), self.limbs())
    }
    fn show(&self) -> String {
        if self.nan() {
            "NaN".into()
        } else {
            format!("{}{}{}", if self.neg() { "-" } else { "" }, if matches!(self, V::N(_)) { "" } else { "int " }, U::from_limbs(&self.limbs()).hex())
        }
    }
}

/// limbs of an interesting natural
pub fn limbs(shape: u64, len: u64, seed: u64) -> Vec<u32> {
    let mut r = Prng::new(seed);
    let len = (len as usize).max(1);
    let mut v: Vec<u32> = match shape % 12 {
        0 => vec![r.below(20) as u32],
        1 => vec![r.spicy32()],
        2 => {
            let mut v = vec![0; len]; // power of two
            v[len - 1] = 1 << r.below(32);
            v
        }
        3 => {
            let mut v = vec![0; len]; // power of two plus one
            v[len - 1] = 1 << r.below(32);
            v[0] |= 1;
            v
        }
        4 => vec![u32::MAX; len],
        5 => {
            let mut v = vec![u32::MAX; len]; // 2^k - 1
            v[len - 1] = u32::MAX >> r.below(32);
            v
        }
        6 => {
            let mut v: Vec<u32> = (0..len).map(|_| 0).collect(); // zero words in the middle
            v[0] = r.u32();
            v[len - 1] = r.u32();
            v
        }
        7 => (0..len).map(|_| r.spicy32()).collect(),
        8 => {
            let mut v: Vec<u32> = (0..len).map(|_| r.u32()).collect(); // small top word
            v[len - 1] = 1 + r.below(3) as u32;
            v
        }
        9 => {
            let mut v: Vec<u32> = (0..len).map(|_| 0).collect(); // low words zero
            for x in v.iter_mut().skip(len / 2) {
                *x = r.u32();
            }
            v
        }
        _ => (0..len).map(|_| r.u32()).collect(),
    };
    while v.len() > 1 && v[v.len() - 1] == 0 {
        v.pop();
    }
    v
}

fn gen_bound(r: &mut Prng, thorough: bool) -> Vec<u64> {
    let len = if r.chance(1, 12) { r.range(1, if thorough { 60 } else { 24 }) } else { r.range(1, 6) };
    vec![r.below(3), r.below(12), len, r.u64() >> 20, r.below(20)]
}
fn gen_source(r: &mut Prng) -> Vec<u64> {
    let mut a = vec![r.below(11), r.below(65), r.u64() >> 20, r.below(8)];
    a.extend(Faults::gen(r));
    a
}

fn gen(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 3);
    let n = if thorough { r.range(10, 60) } else { r.range(6, 24) };
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        st(0, gen_bound(r, thorough));
        st(1, gen_source(r));
        for _ in 0..n / tasks + 2 {
            match r.weighted(&[5, 3, 20, 2, 3, 1, 5, 2]) {
                0 => st(0, gen_bound(r, thorough)),
                1 => st(1, gen_source(r)),
                2 => st(2, vec![r.below(8), r.below(8), r.below(8)]),
                3 => {
                    let mut a = vec![r.below(8), r.u64() >> 20];
                    a.extend(Faults::gen(r));
                    st(3, a)
                }
                5 => st(5, vec![r.below(4), r.u64() >> 20, if r.chance(1, 3) { 0 } else { 1 + r.below(6) }, r.below(12), r.chance(1, 3) as u64, if r.chance(1, 6) { r.range(7, 40) } else { 0 }]),
                7 => st(7, vec![r.below(4), r.u64() >> 20, if r.chance(1, 6) { r.range(7, 40) } else { r.range(1, 6) }, r.below(12)]),
                k => st(k as u32, vec![r.below(16), r.below(16)]),
            }
        }
        progs.push(p);
    }
    Plan { cfg: vec![], steps: super::interleave(r, progs) }
}

/// a live handle and what it must read
struct H {
    v: V,
    want: (bool, bool, Vec<u32>),
    /// handles with the same number share storage
    cell: u64,
    bound: bool,
}

fn in_range(b: &V, r: &V) -> Check {
    let (bn, rn) = (b.read(), r.read());
    let zero = bn.2.iter().all(|&x| x == 0);
    if bn.0 || zero {
        ensure!(rn.0, "not-nan", "random below {} is {} instead of not-a-number", b.show(), r.show());
        return Ok(());
    }
    ensure!(!rn.0, "nan", "random below {} is not-a-number", b.show());
    ensure!(rn.2.len() == 1 || rn.2.last() != Some(&0), "malformed", "random below {} has leading zero words: {:x?}", b.show(), rn.2);
    ensure!(U::from_limbs(&rn.2).lt(&U::from_limbs(&bn.2)), "out-of-range", "random below {} is {}", b.show(), r.show());
    let z = rn.2.iter().all(|&x| x == 0);
    ensure!(rn.1 == (bn.1 && !z), "wrong-sign", "random below {} is {}{}", b.show(), r.show(), if z && rn.1 { " (negative zero)" } else { "" });
    Ok(())
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let mut hs: Vec<H> = vec![];
    let mut srcs: Vec<SimRng> = vec![];
    let mut cells = 0u64;
    for s in &plan.steps {
        cx.sched(s);
        match s.op {
            0 => {
                let len = s.arg(2) % 64 + 1;
                let l = limbs(s.arg(1), len, s.arg(3));
                let v = match s.arg(0) % 3 {
                    0 => V::N(if s.arg(4) == 19 { Nat::default() } else { Nat::from(l) }),
                    k => {
                        let mut i = BigInt::from(l);
                        if k == 2 {
                            i.set_negative();
                        }
                        V::I(i)
                    }
                };
                cells += 1;
                let want = v.read();
                hs.push(H { v, want, cell: cells, bound: true });
            }
            1 => {
                let b: Vec<u32> = hs.iter().rev().find(|h| h.bound).map_or(vec![1], |h| h.v.limbs());
                let p = prefix(s.arg(0), s.arg(1), s.arg(2), &b);
                let f = if s.arg(3) == 0 { Faults::none() } else { Faults::from_args(&s.a[4.min(s.a.len())..]) };
                srcs.push(SimRng::new(p, s.arg(2), f, 0));
            }
            2 => {
                let bs: Vec<usize> = (0..hs.len()).filter(|&i| hs[i].bound).collect();
                if bs.is_empty() || srcs.is_empty() {
                    continue;
                }
                let b = bs[bs.len() - 1 - s.idx(0, bs.len())];
                let si = srcs.len() - 1 - s.idx(1, srcs.len());
                let num = hs[b].v.limbs().len() as u64;
                let src = &mut srcs[si];
                src.budget = src.words + (src.prefix.len() as u64).saturating_sub(src.words) + 200 * num.max(1);
                let mut clean = src.clone();
                clean.faults = Faults::none();
                clean.calls = 0;
                clean.failed = 0;
                clean.budget = 70 + 200 * num.max(1);
                let (w0, f0) = (src.words, src.failed);
                let copy = hs[b].v.deep();
                // the call counter of the source starts at src.calls; its budget is in words
                src.budget += src.calls - src.words - src.failed;
                let bound = &hs[b].v;
                let r = must("random", || bound.random(src))?;
                let fails = src.failed - f0;
                cx.faultn("source_error", fails);
                cx.check();
                in_range(&hs[b].v, &r)?;
                let rr = must("random", || copy.random(&mut clean))?;
                cx.say(|| format!("task {}: random below {} -> {}; {} words, {} failures", s.task, hs[b].v.show(), r.show(), srcs[si].words - w0, fails));
                ensure!(r.read() == rr.read(), "not-transparent", "random below {}: {} with {} failures, {} on the same words without", hs[b].v.show(), r.show(), fails, rr.show());
                ensure!(srcs[si].words - w0 == clean.words - w0, "words-lost", "random below {}: {} words used with {} failures, {} without", hs[b].v.show(), srcs[si].words - w0, fails, clean.words - w0);
                if fails > 0 {
                    cx.probe("drawn_under_failures");
                }
                if srcs[si].words - w0 > num {
                    cx.probe("rejected_and_redrawn");
                }
                cx.obs_limbs(&r.limbs());
                cells += 1;
                let want = r.read();
                hs.push(H { v: r, want, cell: cells, bound: false });
            }
            3 => {
                let bs: Vec<usize> = (0..hs.len()).filter(|&i| hs[i].bound).collect();
                if bs.is_empty() {
                    continue;
                }
                let b = bs[bs.len() - 1 - s.idx(0, bs.len())];
                hw_draw(&hs[b].v, s, cx)?;
            }
            4 => {
                if hs.is_empty() {
                    continue;
                }
                let i = s.idx(0, hs.len());
                let v = hs[i].v.share();
                let h = H { v, want: hs[i].want.clone(), cell: hs[i].cell, bound: hs[i].bound };
                hs.push(h);
            }
            5 => spread(s, cx)?,
            7 => reach(s, cx)?,
            6 => {
                // change one handle in place: only those sharing its storage may follow
                if hs.is_empty() {
                    continue;
                }
                let i = s.idx(0, hs.len());
                if hs[i].v.nan() || hs[i].v.neg() {
                    continue;
                }
                let h = &mut hs[i];
                must("bump", || h.v.bump())?;
                let (cell, now) = (hs[i].cell, U::from_limbs(&hs[i].want.2).add(&U::from_u64(1)).lib_limbs());
                let neg = hs[i].want.1;
                for h in hs.iter_mut().filter(|h| h.cell == cell) {
                    h.want = (false, neg, now.clone());
                }
            }
            _ => {}
        }
        if hs.len() > 24 {
            hs.remove(0);
        }
        if srcs.len() > 6 {
            srcs.remove(0);
        }
        for h in &hs {
            let got = h.v.read();
            ensure!(got == h.want, "disturbed", "a live value reads {} after {}, expected limbs {:x?}", h.v.show(), OPS[s.op as usize % OPS.len()], h.want.2);
        }
    }
    Ok(())
}

/// the real hardware generator on a failing processor as the source
#[cfg(rmath_sim)]
fn hw_draw(b: &V, s: &Step, cx: &mut Cx) -> Check {
    use super::hw::Hw;
    use rmath::rand::{CryptoRand, DefaultSeed};
    let hw = Hw::start(s.arg(1), Faults::from_args(&s.a[2.min(s.a.len())..]), Faults::none());
    let r = must("random", || {
        let mut g = CryptoRand::<u32>::new(&DefaultSeed::<u32>::new().unwrap()).unwrap();
        b.random(&mut g)
    })?;
    cx.check();
    in_range(b, &r)?;
    let log = hw.borrow().log.clone();
    let words: Vec<u32> = log.iter().filter(|e| e.1).map(|e| e.2 as u32).collect();
    let fails = log.iter().filter(|e| !e.1).count() as u64;
    cx.faultn("processor_error", fails);
    let n = words.len() as u64;
    let mut clean = SimRng::new(words, 1, Faults::none(), 200 * b.limbs().len() as u64 + 64);
    let copy = b.deep();
    let rr = must("random", || copy.random(&mut clean))?;
    ensure!(r.read() == rr.read() && clean.words == n, "not-transparent", "random below {} from the hardware generator: {} with {} failures and {} words, {} with {} words without failures", b.show(), r.show(), fails, n, rr.show(), clean.words);
    rmath::rand::sim_hw::install(None);
    Ok(())
}
#[cfg(not(rmath_sim))]
fn hw_draw(_b: &V, _s: &Step, _cx: &mut Cx) -> Check {
    Ok(())
}

fn bound_of(kind: u64, b: &[u32]) -> V {
    match kind % 2 {
        0 => V::N(Nat::from(b.to_vec())),
        _ => {
            let mut i = BigInt::from(b.to_vec());
            if kind % 4 == 3 {
                i.set_negative();
            }
            V::I(i)
        }
    }
}

/// A sampler that returns the words it was fed wherever that is tried at random cannot treat a few chosen
/// values differently and still be uniform: once seen to deliver random values below the bound as they
/// come and to pass over random values beyond it, it must do so with values of any shape.
fn reach(s: &Step, cx: &mut Cx) -> Check {
    let mut r = Prng::new(s.arg(1));
    let b = limbs(s.arg(3), s.arg(2) % 64, mix(s.arg(1), 7));
    let n = U::from_limbs(&b);
    if n.is_zero() {
        return Ok(());
    }
    let bound = bound_of(s.arg(0), &b);
    let bits = n.bits();
    let len = b.len();
    let free = len * 32 - bits;
    let below = |r: &mut Prng, c: &mut dyn FnMut(&mut Prng) -> U| -> Option<U> { (0..20).map(|_| c(r)).find(|u| u.lt(&n)) };
    let beyond = |r: &mut Prng, c: &mut dyn FnMut(&mut Prng) -> U| -> Option<U> { (0..20).map(|_| c(r)).find(|u| !u.lt(&n) && u.bits() <= bits) };
    let cut = |u: U| u.and(&U::from_u64(1).shl(bits).sub(&U::from_u64(1)));
    let mut uniform = |r: &mut Prng| cut(U::from_limbs(&(0..len).map(|_| r.u32()).collect::<Vec<_>>()));
    let seed = r.u64();
    let mut shaped = |r: &mut Prng| match r.below(9) {
        0 => n.absdiff(&U::from_u64(1 + r.below(3))),
        1 => cut(n.add(&U::from_u64(r.below(3)))),
        2 => n.shr(r.below(bits as u64 + 1) as usize),
        3 => {
            let w = r.spicy32();
            cut(U::from_limbs(&vec![w; len]))
        }
        4 => {
            // the bound with one word changed
            let mut v = b.clone();
            let i = r.below(len as u64) as usize;
            v[i] = r.spicy32();
            cut(U::from_limbs(&v))
        }
        5 => {
            // two equal words among random ones
            let mut v: Vec<u32> = (0..len).map(|_| r.u32()).collect();
            let (i, j) = (r.below(len as u64) as usize, r.below(len as u64) as usize);
            v[i] = v[j];
            cut(U::from_limbs(&v))
        }
        6 => {
            let mut v: Vec<u32> = (0..len).map(|_| r.u32()).collect();
            v[r.below(len as u64) as usize] = *r.pick(&[0, 1, u32::MAX, 0x8000_0000]);
            cut(U::from_limbs(&v))
        }
        7 => cut(U::from_u64(r.below(4)).shl(r.below(bits as u64) as usize)),
        _ => cut(U::from_limbs(&limbs(r.below(12), 1 + r.below(len as u64), r.u64()))),
    };
    // the draw when the words of `pass` come first, then those of `t`
    let draw = |r: &mut Prng, big: bool, pass: Option<&U>, t: &U| -> Result<bool, Violation> {
        let mut words = vec![];
        for u in pass.into_iter().chain([t]) {
            let mut l: Vec<u32> = u.0.clone();
            l.resize(len, 0);
            if free > 0 {
                l[len - 1] |= r.u32() << (32 - free);
            }
            if big {
                l.reverse();
            }
            words.extend(l);
        }
        let n = words.len() as u64;
        let mut src = SimRng::new(words, seed, Faults::none(), 400 * len as u64);
        let v = must("random", || bound.random(&mut src))?;
        in_range(&bound, &v)?;
        Ok(U::from_limbs(&v.limbs()) == *t && src.words == n)
    };
    for big in [false, true] {
        let mut plain = 0;
        for _ in 0..8 {
            if let Some(t) = below(&mut r, &mut uniform) {
                plain += if draw(&mut r, big, None, &t)? { 1 } else { -100 };
            }
        }
        if plain < 4 {
            continue;
        }
        cx.probe("words_delivered_as_they_come");
        cx.check();
        for _ in 0..12 {
            if let Some(t) = below(&mut r, &mut shaped) {
                ensure!(draw(&mut r, big, None, &t)?, "not-uniform", "random below {} delivers random words as they come, but not those of {}", bound.show(), t.hex());
            }
        }
        let mut passed = 0;
        for _ in 0..8 {
            if let (Some(t), Some(p)) = (below(&mut r, &mut uniform), beyond(&mut r, &mut uniform)) {
                passed += if draw(&mut r, big, Some(&p), &t)? { 1 } else { -100 };
            }
        }
        if passed < 4 {
            break;
        }
        cx.probe("values_beyond_passed_over");
        for _ in 0..8 {
            if let (Some(t), Some(p)) = (below(&mut r, &mut uniform), beyond(&mut r, &mut shaped)) {
                ensure!(draw(&mut r, big, Some(&p), &t)?, "not-uniform", "random below {} passes over random values beyond the bound, but not over {}", bound.show(), p.hex());
            }
        }
        break;
    }
    Ok(())
}

/// many draws below one bound from a uniform source, with failures: every part of the interval is met
fn spread(s: &Step, cx: &mut Cx) -> Check {
    let mut r = Prng::new(s.arg(1));
    let small = s.arg(2) % 7 == 0;
    let b = if small { vec![1 + r.below(40) as u32] } else { limbs(s.arg(3), if s.arg(5) > 0 { s.arg(5) % 64 } else { s.arg(2) % 7 }, mix(s.arg(1), 7)) };
    let n = U::from_limbs(&b);
    if n.is_zero() {
        return Ok(());
    }
    let bound = bound_of(s.arg(0), &b);
    let draws = if small { 1200 } else if s.arg(4) != 0 { 2400 } else { 600 };
    let f = Faults { one_in: 5, mask: r.u64(), cap: 4000, seed: r.u64(), ..Faults::none() };
    let mut src = SimRng::new(vec![], mix(s.arg(1), 99), f, 200 * draws * b.len() as u64);
    let parts: u64 = n.to_u64().filter(|&x| x < 64).unwrap_or(8);
    let mut cnt = vec![0u64; parts as usize];
    let mut bits = vec![0u64; b.len() * 32];
    // one column of draws per bit
    let mut cols = vec![vec![0u64; draws as usize / 64 + 1]; b.len() * 32];
    let mut seen = std::collections::HashSet::new();
    for d in 0..draws as usize {
        let v = must("random", || bound.random(&mut src))?;
        in_range(&bound, &v)?;
        let u = U::from_limbs(&v.limbs());
        let k = u.mul(&U::from_u64(parts)).div(&n).to_u64().unwrap();
        cnt[k as usize] += 1;
        for (i, c) in bits.iter_mut().enumerate() {
            *c += u.bit(i) as u64;
            cols[i][d / 64] |= (u.bit(i) as u64) << (d % 64);
        }
        if n.bits() > 96 {
            ensure!(seen.insert(v.limbs()), "not-uniform", "the value {} was drawn twice in {} draws below {}", v.show(), d + 1, bound.show());
        }
    }
    cx.faultn("source_error", src.failed);
    cx.probe("spread");
    cx.check();
    // the parts are as even as integers allow; the threshold is far beyond any chance fluctuation
    let e = draws as f64 / parts as f64;
    let chi: f64 = cnt.iter().map(|&c| (c as f64 - e) * (c as f64 - e) / e).sum();
    let df = (parts - 1) as f64;
    ensure!(chi <= df + 14.0 * (2.0 * df).sqrt() + 50.0, "not-uniform", "{} draws below {} fell into {} equal parts as {:?}", draws, bound.show(), parts, cnt);
    // a bit well below the top is even
    let top = n.bits();
    for (i, &c) in bits.iter().enumerate() {
        if i + 16 < top {
            let d = (c as f64 - draws as f64 / 2.0).abs();
            ensure!(d <= 10.0 * (draws as f64).sqrt() / 2.0, "not-uniform", "bit {} was set in {} of {} draws below {}", i, c, draws, bound.show());
        }
    }
    // two such bits are independent of each other
    for i in 0..top.saturating_sub(16) {
        for j in i.saturating_sub(200)..i {
            let c: u32 = cols[i].iter().zip(&cols[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
            let d = (c as f64 - draws as f64 / 2.0).abs();
            ensure!(d <= 10.0 * (draws as f64).sqrt() / 2.0, "not-uniform", "bits {} and {} differ in {} of {} draws below {}", j, i, c, draws, bound.show());
        }
    }
    Ok(())
}

pub const C04: PropDef = PropDef {
    id: "C04", ops: OPS, gen, exec, builds: &[("native", 1), ("portable", 1)], quick: 120000, thorough: 4000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one draw was compared with the fault-free draw on the same words and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Nat::random", "BigInt::random", "Iter", "CryptoRand on the simulated processor (native build)", "Nat and BigInt arithmetic used to poke handles"],
    stub: &["caller's random source (scripted words and failures)", "rdrand (simulated processor)"],
    assumptions: &["uniformity is judged by counts with thresholds far outside chance", "bounded means at most 200 words per word of the bound after the adversarial start of the stream"],
    must_reach: &["source_error", "drawn_under_failures", "rejected_and_redrawn", "spread"],
};
