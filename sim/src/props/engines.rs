//! C01, C02: several owners draw from, iterate over, clone, drop and reseed seeded generators; the
//! reference is a direct transcription of each documented recurrence.
use crate::core::*;
use crate::prng::Prng;
use crate::simrng::{kind_no, SimSeed};
use rmath::rand::{IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, PrimitiveType, RandError, Seed, Source};
use std::collections::VecDeque;

pub const OPS: &[&str] = &["new", "draw", "iterate", "clone", "drop", "reseed", "reseed_fails", "new_fails", "new_refused", "idle_iterator"];

// ------------------------------------------------------------------ reference
#[derive(Clone, Debug)]
pub enum Model {
    Lcg { a: u64, c: u64, m: u64, x: u64 },
    Mt { p: MtPar, x: VecDeque<u64> },
    Swc { w: u32, s: usize, r: usize, x: VecDeque<u64>, carry: u64 },
}

#[derive(Clone, Debug)]
pub struct MtPar {
    pub w: u32,
    pub n: usize,
    pub m: usize,
    pub r: u32,
    pub a: u64,
    pub u: u32,
    pub d: u64,
    pub s: u32,
    pub b: u64,
    pub t: u32,
    pub c: u64,
    pub l: u32,
    pub f: u64,
}

fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

#[derive(Clone, Debug)]
pub enum Par {
    Lcg(u64, u64, u64),
    Mt(MtPar),
    Swc(u32, usize, usize),
}

impl Model {
    pub fn new(p: &Par, seed: u64) -> Model {
        match p {
            Par::Lcg(a, c, m) => Model::Lcg { a: *a, c: *c, m: *m, x: seed },
            Par::Mt(p) => {
                let k = mask(p.w) as u128;
                let mut x = VecDeque::new();
                let mut v = seed as u128 & k;
                x.push_back(v as u64);
                for i in 1..p.n {
                    v = (p.f as u128 * (v ^ (v >> (p.w - 2))) + i as u128) & k;
                    x.push_back(v as u64);
                }
                Model::Mt { p: p.clone(), x }
            }
            Par::Swc(w, s, r) => {
                let mut e = seed as u128;
                let mut x = VecDeque::new();
                for _ in 0..*r {
                    let mut v = 0u128;
                    for j in 0..(*w as usize + 31) / 32 {
                        e = 40014 * e % 2147483563;
                        v += e << (32 * j);
                    }
                    x.push_back((v & mask(*w) as u128) as u64);
                }
                let carry = (*x.back().unwrap() == 0) as u64;
                Model::Swc { w: *w, s: *s, r: *r, x, carry }
            }
        }
    }
    pub fn next(&mut self) -> u64 {
        match self {
            Model::Lcg { a, c, m, x } => {
                *x = ((*a as u128 * *x as u128 + *c as u128) % *m as u128) as u64;
                *x
            }
            Model::Mt { p, x } => {
                // x_{k+n} = x_{k+m} ^ (upper bits of x_k | lower r bits of x_{k+1}) A
                let low = mask(p.r);
                let y = (x[0] & !low) | (x[1 % p.n] & low);
                // m = n is accepted and means the word that is replaced
                let v = x[p.m % p.n] ^ (y >> 1) ^ if y & 1 == 1 { p.a } else { 0 };
                x.pop_front();
                x.push_back(v);
                let k = mask(p.w);
                let mut z = v;
                z ^= (z >> p.u) & p.d;
                z ^= (z << p.s) & p.b & k;
                z ^= (z << p.t) & p.c & k;
                z ^ (z >> p.l)
            }
            Model::Swc { w, s, r, x, carry } => {
                let d = x[*r - *s] as i128 - x[0] as i128 - *carry as i128;
                *carry = (d < 0) as u64;
                let v = (d.rem_euclid(1i128 << *w)) as u64;
                x.pop_front();
                x.push_back(v);
                v
            }
        }
    }
}

// ------------------------------------------------------------------ the real generators
pub trait Word: PrimitiveType + Copy {
    fn to64(self) -> u64;
    fn from64(x: u64) -> Self;
}
impl Word for u32 {
    fn to64(self) -> u64 {
        self as u64
    }
    fn from64(x: u64) -> u32 {
        x as u32
    }
}
impl Word for u64 {
    fn to64(self) -> u64 {
        self
    }
    fn from64(x: u64) -> u64 {
        x
    }
}
impl Word for usize {
    fn to64(self) -> u64 {
        self as u64
    }
    fn from64(x: u64) -> usize {
        x as usize
    }
}

#[derive(Clone, Copy)]
pub enum SeedArg {
    Ok(u64),
    Err(u64, u64),
    Panic,
}
pub fn mk_seed<T: Word>(s: SeedArg) -> SimSeed<T> {
    match s {
        SeedArg::Ok(x) => SimSeed::ok(T::from64(x)),
        SeedArg::Err(k, t) => SimSeed::err(k, t),
        SeedArg::Panic => SimSeed::panicking(),
    }
}

fn draw_g<T: Word, S: Source<T>>(g: &mut S) -> Result<u64, RandError> {
    g.gen().map(|x| x.to64())
}
fn iter_g<T: Word, S: IterSource<T>>(g: &mut S, n: usize) -> Vec<u64> {
    g.iter_mut().take(n).map(|x| x.to64()).collect()
}
fn reset_g<T: Word, S: Source<T>>(g: &mut S, s: SeedArg) -> (Result<(), RandError>, u64)
where
    SimSeed<T>: Seed<T>,
{
    let sd = mk_seed::<T>(s);
    let r = g.reset(&sd);
    (r, sd.taken.get())
}

#[derive(Clone)]
pub enum G {
    L32(LinearCongruentialRand<u32>),
    L64(LinearCongruentialRand<u64>),
    Lus(LinearCongruentialRand<usize>),
    M32(MersenneTwisterRand<u32>),
    M64(MersenneTwisterRand<u64>),
    Mus(MersenneTwisterRand<usize>),
    F32(LaggedFibonacciRand<u32>),
    F64(LaggedFibonacciRand<u64>),
    Fus(LaggedFibonacciRand<usize>),
}

macro_rules! each {
    ($self: expr, $g: ident => $e: expr) => {
        match $self {
            G::L32($g) => $e,
            G::L64($g) => $e,
            G::Lus($g) => $e,
            G::M32($g) => $e,
            G::M64($g) => $e,
            G::Mus($g) => $e,
            G::F32($g) => $e,
            G::F64($g) => $e,
            G::Fus($g) => $e,
        }
    };
}

fn lcg<T: Word + PartialEq + Default>(sd: &SimSeed<T>, a: u64, c: u64, m: u64) -> Result<LinearCongruentialRand<T>, RandError>
where
    SimSeed<T>: Seed<T>,
{
    LinearCongruentialRand::new(sd, T::from64(a), T::from64(c), T::from64(m))
}
fn mt<T: Word + PartialOrd + std::ops::Shl<Output = T> + Default + std::fmt::Debug>(sd: &SimSeed<T>, p: &MtRaw) -> Result<MersenneTwisterRand<T>, RandError>
where
    SimSeed<T>: Seed<T>,
{
    let g = |i: usize| T::from64(p.0[i]);
    MersenneTwisterRand::new(sd, g(0), g(1), g(2), g(3), g(4), (g(5), g(6)), (g(7), g(8)), (g(9), g(10)), g(11), g(12))
}
fn swc<T: Word + PartialOrd + Default + std::fmt::Debug>(sd: &SimSeed<T>, w: u64, s: u64, r: u64) -> Result<LaggedFibonacciRand<T>, RandError>
where
    SimSeed<T>: Seed<T>,
{
    LaggedFibonacciRand::new(sd, T::from64(w), T::from64(s), T::from64(r))
}

/// w n m r a u d s b t c l f
pub struct MtRaw(pub [u64; 13]);
impl MtPar {
    fn raw(&self) -> MtRaw {
        MtRaw([self.w as u64, self.n as u64, self.m as u64, self.r as u64, self.a, self.u as u64, self.d, self.s as u64, self.b, self.t as u64, self.c, self.l as u64, self.f])
    }
}
pub enum RawPar {
    Lcg(u64, u64, u64),
    Mt(MtRaw),
    Swc(u64, u64, u64),
}

/// ty: 0 u32, 1 u64, 2 usize
pub fn build(p: &RawPar, ty: u64, s: SeedArg) -> (Result<G, RandError>, u64) {
    macro_rules! go {
        ($T: ty, $L: ident, $M: ident, $F: ident) => {{
            let sd = mk_seed::<$T>(s);
            let r = match p {
                RawPar::Lcg(a, c, m) => lcg::<$T>(&sd, *a, *c, *m).map(G::$L),
                RawPar::Mt(p) => mt::<$T>(&sd, p).map(G::$M),
                RawPar::Swc(w, s, r) => swc::<$T>(&sd, *w, *s, *r).map(G::$F),
            };
            (r, sd.taken.get())
        }};
    }
    match ty {
        0 => go!(u32, L32, M32, F32),
        1 => go!(u64, L64, M64, F64),
        _ => go!(usize, Lus, Mus, Fus),
    }
}

pub fn preset(k: u64, s: SeedArg) -> (Result<G, RandError>, u64, Par) {
    let s32 = mk_seed::<u32>(s);
    let s64 = mk_seed::<u64>(s);
    let sus = mk_seed::<usize>(s);
    let r = match k {
        0 => (rmath::minstd_rand0!(s32).map(G::L32), Par::Lcg(16807, 0, 2147483647)),
        1 => (rmath::minstd_rand!(s32).map(G::L32), Par::Lcg(48271, 0, 2147483647)),
        2 => (rmath::mt19937!(s32).map(G::M32), Par::Mt(MT32)),
        3 => (rmath::mt19937_64!(s64).map(G::M64), Par::Mt(MT64)),
        4 => (rmath::ranlux24_base!(s32).map(G::F32), Par::Swc(24, 10, 24)),
        5 => (rmath::ranlux24_base!(s64).map(G::F64), Par::Swc(24, 10, 24)),
        6 => (rmath::ranlux48_base!(s64).map(G::F64), Par::Swc(48, 5, 12)),
        _ => (rmath::ranlux48_base!(sus).map(G::Fus), Par::Swc(48, 5, 12)),
    };
    (r.0, s32.taken.get() + s64.taken.get() + sus.taken.get(), r.1)
}
const PRESET_TY: [u64; 8] = [0, 0, 0, 1, 0, 1, 1, 2];

pub const MT32: MtPar = MtPar { w: 32, n: 624, m: 397, r: 31, a: 0x9908b0df, u: 11, d: 0xffffffff, s: 7, b: 0x9d2c5680, t: 15, c: 0xefc60000, l: 18, f: 1812433253 };
pub const MT64: MtPar = MtPar { w: 64, n: 312, m: 156, r: 31, a: 0xb5026f5aa96619e9, u: 29, d: 0x5555555555555555, s: 17, b: 0x71d67fffeda60000, t: 37, c: 0xfff7eee000000000, l: 43, f: 6364136223846793005 };

impl G {
    pub fn draw(&mut self) -> Result<u64, RandError> {
        each!(self, g => draw_g(g))
    }
    pub fn iterate(&mut self, n: usize) -> Vec<u64> {
        each!(self, g => iter_g(g, n))
    }
    /// clone_from between generators of one type
    pub fn copy_from(&mut self, o: &G) -> bool {
        match (self, o) {
            (G::L32(a), G::L32(b)) => a.clone_from(b),
            (G::L64(a), G::L64(b)) => a.clone_from(b),
            (G::Lus(a), G::Lus(b)) => a.clone_from(b),
            (G::M32(a), G::M32(b)) => a.clone_from(b),
            (G::M64(a), G::M64(b)) => a.clone_from(b),
            (G::Mus(a), G::Mus(b)) => a.clone_from(b),
            (G::F32(a), G::F32(b)) => a.clone_from(b),
            (G::F64(a), G::F64(b)) => a.clone_from(b),
            (G::Fus(a), G::Fus(b)) => a.clone_from(b),
            _ => return false,
        }
        true
    }
    pub fn reset(&mut self, s: SeedArg) -> (Result<(), RandError>, u64) {
        each!(self, g => reset_g(g, s))
    }
}

fn bits_of(ty: u64) -> u32 {
    if ty == 0 {
        32
    } else {
        64
    }
}

fn random_par(fam: u64, ty: u64, r: &mut Prng) -> Par {
    let bits = bits_of(ty);
    match fam {
        0 => {
            let k = mask(bits);
            let v = |r: &mut Prng| match r.below(4) {
                0 => r.below(70000),
                1 => k - r.below(5),
                _ => r.spicy64() & k,
            };
            Par::Lcg(v(r), v(r), v(r).max(1))
        }
        1 => {
            let w = match r.below(4) {
                0 => bits,
                1 => r.range(2, bits as u64) as u32,
                2 => bits - 1,
                _ => r.range(8, bits as u64) as u32,
            };
            let n = if r.chance(1, 12) { r.range(41, 1500) } else if r.chance(1, 20) { 1 } else { r.range(2, 40) } as usize;
            let m = if n == 1 || r.chance(1, 12) { n } else { r.range(1, n as u64 - 1) as usize };
            let k = mask(w);
            let v = |r: &mut Prng| (if r.chance(1, 6) { k } else { r.u64() & k }).max(1);
            let sh = |r: &mut Prng| if w <= 2 { 1 } else { r.range(1, w as u64 - 1) as u32 };
            Par::Mt(MtPar { w, n, m, r: sh(r), a: v(r), u: sh(r), d: v(r), s: sh(r), b: v(r), t: sh(r), c: v(r), l: sh(r), f: v(r) })
        }
        _ => {
            let w = match r.below(4) {
                0 => bits,
                1 => r.range(1, bits as u64) as u32,
                2 => bits.min(32),
                _ => bits - 1,
            };
            let rr = if r.chance(1, 12) { r.range(41, 1500) } else { r.range(2, 40) } as usize;
            let s = r.range(1, rr as u64 - 1) as usize;
            Par::Swc(w, s, rr)
        }
    }
}

pub fn raw(p: &Par) -> RawPar {
    match p {
        Par::Lcg(a, c, m) => RawPar::Lcg(*a, *c, *m),
        Par::Mt(p) => RawPar::Mt(p.raw()),
        Par::Swc(w, s, r) => RawPar::Swc(*w as u64, *s as u64, *r as u64),
    }
}

/// break one documented range; returns the name of the broken rule
fn break_par(p: &mut RawPar, ty: u64, r: &mut Prng) -> &'static str {
    let bits = bits_of(ty) as u64;
    match p {
        RawPar::Lcg(_, _, m) => {
            *m = 0;
            "m=0"
        }
        RawPar::Mt(MtRaw(v)) => {
            let w = v[0];
            match r.below(23) {
                0 => { v[0] = 0; "w=0" }
                1 => { v[0] = bits + 1 + r.below(3); "w>bits" }
                2 => { v[2] = 0; "m=0" }
                3 => { v[2] = v[1] + 1 + r.below(3); "m>n" }
                4 => { v[3] = 0; "r=0" }
                5 => { v[3] = w + r.below(2); "r>=w" }
                6 => { v[4] = 0; "a=0" }
                7 => { v[5] = 0; "u=0" }
                8 => { v[5] = w + r.below(2); "u>=w" }
                9 => { v[6] = 0; "d=0" }
                10 => { v[7] = 0; "s=0" }
                11 => { v[7] = w + r.below(2); "s>=w" }
                12 => { v[8] = 0; "b=0" }
                13 => { v[9] = 0; "t=0" }
                14 => { v[9] = w + r.below(2); "t>=w" }
                15 => { v[10] = 0; "c=0" }
                16 => { v[11] = w + r.below(2); "l>=w" }
                17 => { v[12] = 0; "f=0" }
                k => {
                    if w >= bits {
                        v[1] = 0;
                        "n=0"
                    } else {
                        let i = [4, 6, 8, 10, 12][(k - 18) as usize];
                        v[i] = mask(w as u32) + 1 + r.below(2);
                        "mask too wide"
                    }
                }
            }
        }
        RawPar::Swc(w, s, rr) => match r.below(6) {
            0 => { *w = 0; "w=0" }
            1 => { *w = bits + 1 + r.below(40); "w>bits" }
            2 => { *s = 0; "s=0" }
            3 => { *rr = 0; "r=0" }
            4 => { *s = *rr; "s=r" }
            _ => { *s = *rr + 1 + r.below(5); "s>r" }
        },
    }
}

fn seed_val(r: &mut Prng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 2147483563 * r.below(3),
        3 => u64::MAX,
        _ => r.spicy64(),
    }
}

const SLOTS: u64 = 3;

/// [slot, family, type, preset+1 or 0, parameter seed, seed]
fn new_args(r: &mut Prng, slot: u64) -> Vec<u64> {
    if r.chance(2, 5) {
        vec![slot, 0, 0, 1 + r.below(8), 0, seed_val(r)]
    } else {
        vec![slot, r.below(3), r.below(3), 0, r.u64() >> 20, seed_val(r)]
    }
}

fn gen(r: &mut Prng, thorough: bool, c02: bool) -> Plan {
    let tasks = r.range(1, 4);
    let len = if thorough { r.range(8, 60) } else { r.range(6, 30) };
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        let slot0 = r.below(SLOTS);
        st(0, new_args(r, slot0));
        for _ in 0..len / tasks + 2 {
            let slot = r.below(SLOTS);
            let w: [u64; 10] = if c02 { [4, 14, 8, 3, 1, 12, 8, 4, 5, 1] } else { [4, 20, 12, 6, 2, 2, 1, 0, 0, 2] };
            let op = r.weighted(&w) as u32;
            let count = match r.below(8) {
                0 => 1,
                1 | 2 | 3 => r.range(1, 10),
                4 | 5 => r.range(10, 60),
                6 => r.range(60, 320),
                _ => *r.pick(&[311, 312, 313, 623, 624, 625, 700, 1300]),
            };
            let count = if r.chance(1, 4000) { r.range(1 << 12, if thorough { 1 << 19 } else { 1 << 17 }) } else { count };
            match op {
                0 => st(0, new_args(r, slot)),
                1 | 2 => st(op, vec![slot, count]),
                3 => st(3, vec![slot, r.below(tasks), r.below(SLOTS), r.below(3)]),
                4 | 9 => st(op, vec![slot]),
                5 => st(5, vec![slot, seed_val(r)]),
                6 => st(6, vec![slot, r.below(3), r.below(1 << 20)]),
                7 => st(7, { let mut a = new_args(r, slot); a.push(r.below(1 << 20)); a }),
                _ => st(8, vec![r.below(3), r.below(3), r.u64() >> 20]),
            }
        }
        progs.push(p);
    }
    Plan { cfg: vec![tasks], steps: super::interleave(r, progs) }
}

fn gen_c01(r: &mut Prng, th: bool) -> Plan {
    gen(r, th, false)
}
fn gen_c02(r: &mut Prng, th: bool) -> Plan {
    gen(r, th, true)
}

struct Live {
    g: G,
    m: Model,
    par: Par,
    ty: u64,
}

pub fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let mut slots: Vec<Option<Live>> = (0..8 * SLOTS).map(|_| None).collect();
    let n = slots.len();
    for s in &plan.steps {
        cx.sched(s);
        let at = ((s.task as u64 * SLOTS + s.arg(0) % SLOTS) as usize) % n;
        match s.op {
            0 | 7 => {
                let seed = s.arg(5);
                let sa = if s.op == 7 { SeedArg::Err(s.arg(0), s.arg(6)) } else { SeedArg::Ok(seed) };
                let (res, taken, par, ty) = if s.arg(3) > 0 {
                    let k = (s.arg(3) - 1) % 8;
                    let (r, t, p) = must("new", || preset(k, sa))?;
                    (r, t, p, PRESET_TY[k as usize])
                } else {
                    let (fam, ty) = (s.arg(1) % 3, s.arg(2) % 3);
                    let par = random_par(fam, ty, &mut Prng::new(s.arg(4)));
                    let (r, t) = must("new", || build(&raw(&par), ty, sa))?;
                    (r, t, par, ty)
                };
                cx.check();
                ensure!(taken == 1, "seed-consumption", "construction of {:?} took {} values from the seed source", par, taken);
                match (res, s.op) {
                    (Ok(g), 0) => {
                        let sv = if ty == 0 { seed as u32 as u64 } else { seed };
                        cx.say(|| format!("task {} slot {}: new {:?} type {} seed {}", s.task, at, par, ty, sv));
                        slots[at] = Some(Live { g, m: Model::new(&par, sv), par, ty });
                    }
                    (Err(e), 7) => {
                        cx.fault("seed_source_error");
                        seed_err(&e, s.arg(0), s.arg(6), "new")?;
                    }
                    (Ok(_), _) => return violation("seed-error-lost", format!("construction of {:?} succeeded although the seed source failed", par)),
                    (Err(e), _) => return violation("refused-valid", format!("accepted parameters {:?} refused: {:?} {}", par, e.kind(), e)),
                }
            }
            1 | 2 => {
                let cnt = s.arg(1) % (1 << 20);
                if let Some(l) = slots[at].as_mut() {
                    let got: Vec<u64> = if s.op == 2 {
                        must("iterate", || l.g.iterate(cnt as usize))?
                    } else {
                        let mut v = vec![];
                        for _ in 0..cnt {
                            match must("draw", || l.g.draw())? {
                                Ok(x) => v.push(x),
                                Err(e) => return violation("draw-error", format!("{:?} reported {}", l.par, e)),
                            }
                        }
                        v
                    };
                    ensure!(got.len() == cnt as usize, "iterator-short", "{:?}: {} of {} words", l.par, got.len(), cnt);
                    if cnt > 320 {
                        cx.probe("state_wrapped");
                    }
                    for (i, &x) in got.iter().enumerate() {
                        let e = l.m.next();
                        cx.obs(x);
                        ensure!(x == e, format!("stream:{}", fam_name(&l.par)), "{:?} type {}: word {} of this {} is {:#x}, the recurrence gives {:#x}", l.par, l.ty, i, OPS[s.op as usize], x, e);
                    }
                    cx.check();
                }
            }
            3 => {
                let src = ((s.arg(1) % 8 * SLOTS + s.arg(2) % SLOTS) as usize) % n;
                // over a living generator of the same kind the copy is made in place
                if src != at && slots[src].is_some() && slots[at].is_some() && s.arg(3) == 1 {
                    let mut l = slots[at].take().unwrap();
                    let o = slots[src].as_ref().unwrap();
                    if must("clone_from", || l.g.copy_from(&o.g))? {
                        l = Live { g: l.g, m: o.m.clone(), par: o.par.clone(), ty: o.ty };
                        cx.probe("cloned_in_place");
                    }
                    slots[at] = Some(l);
                    continue;
                }
                let c = match slots[src].as_ref() {
                    Some(l) => Some(Live { g: must("clone", || l.g.clone())?, m: l.m.clone(), par: l.par.clone(), ty: l.ty }),
                    None => None,
                };
                if let Some(c) = c {
                    cx.probe("cloned_generator");
                    if src != at {
                        slots[at] = Some(c);
                    }
                }
            }
            4 => slots[at] = None,
            9 => {
                if let Some(l) = slots[at].as_mut() {
                    must("idle iterator", || l.g.iterate(0))?;
                }
            }
            5 => {
                if let Some(l) = slots[at].as_mut() {
                    let (r, taken) = must("reset", || l.g.reset(SeedArg::Ok(s.arg(1))))?;
                    cx.check();
                    ensure!(taken == 1, "seed-consumption", "reset of {:?} took {} values", l.par, taken);
                    ensure!(r.is_ok(), "reset-error", "reset of {:?} failed with a working seed source", l.par);
                    let sv = if l.ty == 0 { s.arg(1) as u32 as u64 } else { s.arg(1) };
                    l.m = Model::new(&l.par, sv);
                    cx.probe("reseeded");
                }
            }
            6 => {
                if let Some(l) = slots[at].as_mut() {
                    let (r, taken) = must("reset", || l.g.reset(SeedArg::Err(s.arg(1), s.arg(2))))?;
                    cx.fault("seed_source_error");
                    cx.check();
                    ensure!(taken == 1, "seed-consumption", "reset of {:?} took {} values", l.par, taken);
                    match r {
                        Ok(()) => return violation("seed-error-lost", format!("reset of {:?} reported success although the seed source failed", l.par)),
                        Err(e) => seed_err(&e, s.arg(1), s.arg(2), "reset")?,
                    }
                }
            }
            8 => {
                let (fam, ty) = (s.arg(0) % 3, s.arg(1) % 3);
                let mut r = Prng::new(s.arg(2));
                let par = random_par(fam, ty, &mut r);
                let mut rp = raw(&par);
                let why = break_par(&mut rp, ty, &mut r);
                let (res, _) = must(&format!("refuse {}", why), || build(&rp, ty, SeedArg::Ok(7)))?;
                cx.check();
                cx.probe("bad_parameters");
                ensure!(res.is_err(), format!("accepted-invalid:{} {}", fam_name(&par), why), "{:?} with {} was accepted", par, why);
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn fam_name(p: &Par) -> &'static str {
    match p {
        Par::Lcg(..) => "lcg",
        Par::Mt(_) => "mt",
        Par::Swc(..) => "swc",
    }
}

fn seed_err(e: &RandError, k: u64, tag: u64, what: &str) -> Check {
    let want = kind_no(crate::simrng::KINDS[(k % 3) as usize]);
    ensure!(kind_no(e.kind()) == want && e.to_string() == format!("seed error {}", tag), "seed-error-changed", "{} reported {:?} '{}' instead of the seed source's own error", what, e.kind(), e);
    Ok(())
}

const REAL: &[&str] = &["LinearCongruentialRand", "MersenneTwisterRand", "LaggedFibonacciRand", "Iter", "preset macros"];
const STUB: &[&str] = &["seed source (scripted)"];
const ASSUME: &[&str] = &[
    "Mersenne Twister parameters are explored over their documented ranges except l = 0, which the documentation allows and the code refuses; m = n means the word being replaced",
    "an all-zero subtract-with-carry table (seed 0) follows the plain recurrence",
    "lag tables of up to 1500 words",
];
pub const C01: PropDef = PropDef {
    id: "C01", ops: OPS, gen: gen_c01, exec, builds: &[("native", 1)], quick: 480000, thorough: 6000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one stream comparison against the recurrence was made and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: REAL, stub: STUB, assumptions: ASSUME, must_reach: &["cloned_generator", "cloned_in_place", "state_wrapped"],
};
pub const C02: PropDef = PropDef {
    id: "C02", ops: OPS, gen: gen_c02, exec, builds: &[("native", 1)], quick: 480000, thorough: 6000000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one reseed, refusal or stream comparison was checked and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: REAL, stub: STUB, assumptions: ASSUME, must_reach: &["seed_source_error", "reseeded", "bad_parameters"],
};
