//! C07, C08, C09, C14: several owners work on numbers that share storage in all ways the library offers
//! (clone, magnitude view of an integer, parts of a rational). A model of the sharing graph with exact
//! values is kept next to it; after every scheduled step every live handle is read and compared.
use super::engines::{self, SeedArg, G};
use crate::alloc;
use crate::core::*;
use crate::ensure;
use crate::prng::{mix, Prng};
use crate::refint::{I, U};
use crate::simrng::{Faults, SimRng};
use rmath::bigint::{BigInt, Float, Nat};
use rmath::bigint::float::{Accuracy, RoundingMode};
use rmath::bigint::Rat;
use rmath::rand::IterSource;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::str::FromStr;

pub const OPS: &[&str] = &[
    "new_nat", "new_int", "new_rat", "new_float", "share", "deep_copy", "view", "drop", "nat_value", "nat_inplace", "int_value", "int_inplace", "rat_value",
    "rat_inplace", "float_value", "float_inplace", "convert", "compare", "format", "crash_arith", "crash_source", "crash_sink", "crash_generator", "generator",
    "big", "machine", "refused", "rat_of_ints",
];

/// a number of `n` words made of runs: all ones, zeros, random words and words next to a power of two
pub fn runs(seed: u64, n: usize) -> U {
    let mut r = Prng::new(seed);
    let mut v = Vec::with_capacity(n);
    let style = r.below(8);
    while v.len() < n {
        let len = match r.below(4) {
            0 => 1,
            1 => 1 + r.below(4) as usize,
            2 => (n / 2).max(1),
            _ => 1 + r.below(n as u64) as usize,
        };
        let k = match style {
            0 => 0,
            1 => r.below(2),
            2 => 2,
            _ => r.below(8),
        };
        let fix = [0xffff_ffff, 0, 0, 1, 0x8000_0000, 0xffff_fffe, 0x7fff_ffff, 0][k as usize];
        for _ in 0..len.min(n - v.len()) {
            v.push(if k == 2 || k == 7 { r.u32() } else { fix });
        }
    }
    if *v.last().unwrap() == 0 {
        *v.last_mut().unwrap() = *r.pick(&[1, 0xffff_ffff, 0x8000_0000, 3]);
    }
    U::from_limbs(&v)
}

pub enum V {
    N(Nat),
    I(BigInt),
    R(Rat),
    F(Float),
}

#[derive(Clone, PartialEq, Debug)]
pub enum M {
    N(u32),
    I(u32, bool),
    R(u32, bool, u32),
    F(u32, Vec<u64>),
}

pub struct H {
    pub v: V,
    pub m: M,
    /// independent copy of a float, for the comparison part of its fingerprint
    shadow: Option<Float>,
}

/// a shift distance: mostly a few words, sometimes far beyond the number
fn shift(e: u64) -> usize {
    if e >> 20 & 15 == 3 {
        return (e % 2700) as usize;
    }
    if e >> 20 & 15 == 4 {
        return 32 * (e % 84) as usize;
    }
    (e % 200) as usize
}

/// a value that stands in a close relation to two others
fn derived(k: u64, x: &U, y: &U) -> U {
    let one = U::from_u64(1);
    let less = |u: U| if u.is_zero() { u } else { u.sub(&one) };
    let words = |f: &dyn Fn(&mut Vec<u32>)| {
        let mut l = x.lib_limbs();
        f(&mut l);
        U::from_limbs(&l)
    };
    match k % 16 {
        0 => x.add(&one),
        1 => less(x.clone()),
        2 => x.mul(y),
        3 => less(x.mul(y)),
        4 => less(x.mul(y).add(y)),
        5 => less(x.mul(x)),
        6 => x.mul(x).add(x).add(x),
        7 => one.shl(x.bits()),
        8 => less(one.shl(x.bits())),
        9 => words(&|l| *l.last_mut().unwrap() ^= 1),
        10 => words(&|l| l[0] ^= 1),
        11 => words(&|l| l.reverse()),
        12 => words(&|l| l.iter_mut().for_each(|w| *w = !*w)),
        13 => one.shl(x.lib_limbs().len() * 32).sub(x),
        14 => x.shl(32 * (y.lib_limbs()[0] % 4) as usize),
        _ => words(&|l| {
            let n = l.len();
            l[n / 2] = 0
        }),
    }
}

fn nat_limbs(n: &Nat) -> Vec<u32> {
    AsRef::<[u32]>::as_ref(n).to_vec()
}
fn int_nat(i: &BigInt) -> &Nat {
    AsRef::<Nat>::as_ref(i)
}
fn int_limbs(i: &BigInt) -> Vec<u32> {
    nat_limbs(int_nat(i))
}
fn show(l: &[u32]) -> String {
    if l.is_empty() {
        "NaN".into()
    } else if l.len() > 1 && l[l.len() - 1] == 0 {
        format!("{:x?} (leading zero words)", l)
    } else {
        U::from_limbs(l).hex()
    }
}
fn showi(neg: bool, l: &[u32]) -> String {
    format!("{}{}", if neg { "-" } else { "" }, show(l))
}
/// limbs -> value (NaN: None)
fn val(l: &[u32]) -> Option<U> {
    if l.is_empty() {
        None
    } else {
        Some(U::from_limbs(l))
    }
}
fn unval(u: &Option<U>) -> Vec<u32> {
    match u {
        None => vec![],
        Some(u) => u.lib_limbs(),
    }
}

fn mode_no(m: RoundingMode) -> u64 {
    match m {
        RoundingMode::ToNearestEven => 0,
        RoundingMode::ToNearestAway => 1,
        RoundingMode::ToZero => 2,
        RoundingMode::AwayFromZero => 3,
        RoundingMode::ToNegativeInf => 4,
        RoundingMode::ToPositiveInf => 5,
    }
}
fn mode_of(k: u64) -> RoundingMode {
    match k % 6 {
        0 => RoundingMode::ToNearestEven,
        1 => RoundingMode::ToNearestAway,
        2 => RoundingMode::ToZero,
        3 => RoundingMode::AwayFromZero,
        4 => RoundingMode::ToNegativeInf,
        _ => RoundingMode::ToPositiveInf,
    }
}
fn acc_no(a: Accuracy) -> u64 {
    match a {
        Accuracy::Below => 0,
        Accuracy::Exact => 1,
        Accuracy::Above => 2,
    }
}
fn text_hash(s: &str) -> u64 {
    s.bytes().fold(s.len() as u64, |h, b| mix(h, b as u64))
}
const PANICKED: u64 = 0x7a7a_7a7a_0000_0001;

/// everything observable about a float; `deep` adds its digits
fn fingerprint(f: &Float, shadow: Option<&Float>, deep: bool) -> Vec<u64> {
    let g = |x: &dyn Fn() -> u64| guard(|| x()).unwrap_or(PANICKED);
    let mut v = vec![
        f.is_nan() as u64,
        f.signnum().map_or(9, |x| x as u64),
        f.is_negative().map_or(9, |x| x as u64),
        f.is_infinite().map_or(9, |x| x as u64),
        f.get_precision() as u64,
        mode_no(f.get_mode()),
        acc_no(f.get_accuracy()),
    ];
    v.push(g(&|| f.required_min_precision() as u64));
    v.push(g(&|| f.mant_exp().1 as u64));
    if let Some(s) = shadow {
        v.push(g(&|| f.partial_cmp(s).map_or(9, |o| o as i32 as u64)));
    }
    if deep {
        v.push(g(&|| text_hash(&format!("{:.50e}", f))));
        v.push(g(&|| f.to_f64().0.to_bits()));
    }
    v
}
fn rat_read(r: &Rat) -> (bool, bool, Vec<u32>, Vec<u32>) {
    (r.is_nan(), r.numerator().is_negative(), int_limbs(r.numerator()), int_limbs(r.denominator()))
}
type RatRead = (bool, bool, Vec<u32>, Vec<u32>);
/// numerator and denominator of the value (not reduced), if it is defined
fn rat_exact(k: u64, p: &RatRead, q: &RatRead) -> Option<(I, I)> {
    let val = |x: &RatRead| (I::new(x.1, U::from_limbs(&x.2)), I::pos(U::from_limbs(&x.3)));
    if p.0 || (k < 4 || k == 7) && q.0 || p.3.iter().all(|x| *x == 0) || q.3.iter().all(|x| *x == 0) {
        return None;
    }
    let ((a, b), (c, d)) = (val(p), val(q));
    let over = |n: I, m: I| if m.m.is_zero() { None } else { Some((I::new(n.neg != m.neg, n.m), I::pos(m.m))) };
    match k {
        0 => Some((a.mul(&d).add(&c.mul(&b)), b.mul(&d))),
        1 => Some((a.mul(&d).sub(&c.mul(&b)), b.mul(&d))),
        3 => over(a.mul(&d), b.mul(&c)),
        4 => Some((a.neg(), b)),
        5 => Some((I::pos(a.m), b)),
        6 => over(b, a),
        _ => Some((a.mul(&c), b.mul(&d))),
    }
}
fn rat_is(what: &str, g: &RatRead, den_neg: bool, want: &(I, I)) -> Check {
    let (n, d) = (I::new(g.1, U::from_limbs(&g.2)), I::pos(U::from_limbs(&g.3)));
    ensure!(
        !g.0 && !d.m.is_zero() && (n.m.is_zero() || !den_neg) && n.mul(&want.1).cmp(&want.0.mul(&d)) == std::cmp::Ordering::Equal,
        "wrong-value",
        "{} gives {}{}/{}{}, exact is {}/{}",
        what,
        if g.0 { "nan " } else { "" },
        showi(g.1, &g.2),
        if den_neg { "-" } else { "" },
        show(&g.3),
        want.0.hex(),
        want.1.hex()
    );
    Ok(())
}
fn s_pick<T>(v: &[T], k: u64) -> &T {
    &v[k as usize % v.len()]
}
/// the nearest f64 and f32, and whether they are exact
fn to_machine(x: &Rat, cx: &mut Cx) -> Check {
    let (nan, neg, n, d) = rat_read(x);
    let (n, d) = (U::from_limbs(&n), U::from_limbs(&d));
    if nan || d.is_zero() {
        return Ok(());
    }
    let (w, e) = crate::refint::nearest(&n, &d, 53, -1022);
    let (w2, e2) = crate::refint::nearest(&n, &d, 24, -126);
    let (g, g2, sn) = must("conversion of a rational to a machine float", || (x.to_f64(), x.to_f32(), x.signnum()))?;
    let is = |f: f64, ok: bool, w: f64, e: bool| f.abs() == w && (w == 0.0 || (f < 0.0) == neg) && ok == e;
    let sign = if neg { "-" } else { "" };
    cx.probe("rational_to_machine_float");
    if w != 0.0 && w < f64::MIN_POSITIVE || w2 != 0.0 && (w2 as f32) < f32::MIN_POSITIVE {
        cx.probe("rational_to_subnormal_float");
    }
    ensure!(is(g.0, g.1, w, e), "wrong-value", "{}{}/{} converts to the f64 {:e} (exact: {}), the nearest is {:e} (exact: {})", sign, n.hex(), d.hex(), g.0, g.1, w, e);
    ensure!(is(g2.0 as f64, g2.1, w2, e2), "wrong-value", "{}{}/{} converts to the f32 {:e} (exact: {}), the nearest is {:e} (exact: {})", sign, n.hex(), d.hex(), g2.0, g2.1, w2, e2);
    ensure!(sn == Some(if n.is_zero() { 0 } else { 1 - 2 * neg as isize }), "wrong-value", "the sign of {}{}/{} is {:?}", sign, n.hex(), d.hex(), sn);
    for f in [g.0, g2.0 as f64] {
        if f.is_finite() {
            let r = rat_read(&must("rational of a machine float", || Rat::from_f64(f))?);
            let back = if r.0 || r.3.iter().all(|x| *x == 0) { (f64::NAN, false) } else { crate::refint::nearest(&U::from_limbs(&r.2), &U::from_limbs(&r.3), 53, -1022) };
            ensure!(back == (f.abs(), true) && (f == 0.0 || r.1 == (f < 0.0)), "wrong-value", "the rational of the f64 {:e} is {}/{}", f, showi(r.1, &r.2), show(&r.3));
        }
    }
    Ok(())
}
fn float_ok(f: &Float) -> bool {
    let e = guard(|| f.mant_exp().1).unwrap_or(99999);
    (-2000..=2000).contains(&e) && f.get_precision() <= 1024
}

pub struct World {
    pub hs: Vec<H>,
    cells: BTreeMap<u32, Vec<u32>>,
    next: u32,
    gens: Vec<(G, G)>,
    /// values bound this size are kept alive
    keep: usize,
    /// a crowd of further handles of one cell, in no operation of their own
    crowd: (u32, Vec<Nat>),
}

/// primes for modular square roots, residue classes 3 mod 4, 5 mod 8, 1 mod 8
const ODD_PRIMES: &[&str] = &["3", "5", "7", "11", "10001", "fffffffb", "7fffffff", "1fffffffffffffff", "ffffffff00000001", "ffffffffffffffc5", "7fffffffffffffffffffffffffffffff", "c0000001", "1000000000000000d", "61", "d"];

impl World {
    pub fn new() -> World {
        World { hs: vec![], cells: BTreeMap::new(), next: 1, gens: vec![], keep: 80, crowd: (0, vec![]) }
    }
    fn cell(&mut self, l: Vec<u32>) -> u32 {
        let c = self.next;
        self.next += 1;
        self.cells.insert(c, l);
        c
    }
    fn get(&self, c: u32) -> &Vec<u32> {
        &self.cells[&c]
    }
    fn kind(&self, k: u8) -> Vec<usize> {
        (0..self.hs.len())
            .filter(|&i| match self.hs[i].v {
                V::N(_) => k == 0,
                V::I(_) => k == 1,
                V::R(_) => k == 2,
                V::F(_) => k == 3,
            })
            .collect()
    }
    fn push(&mut self, v: V, m: M) {
        let (k, cap) = match v {
            V::N(_) => (0, 14),
            V::I(_) => (1, 14),
            V::R(_) => (2, 6),
            V::F(_) => (3, 5),
        };
        let of = self.kind(k);
        if of.len() >= cap {
            self.hs.remove(of[0]);
        }
        self.hs.push(H { v, m, shadow: None });
    }
    fn push_nat(&mut self, n: Nat, l: Vec<u32>) {
        if l.len() <= self.keep {
            let c = self.cell(l);
            self.push(V::N(n), M::N(c));
        }
    }
    fn push_int(&mut self, n: BigInt, neg: bool, l: Vec<u32>) {
        if l.len() <= self.keep {
            let c = self.cell(l);
            self.push(V::I(n), M::I(c, neg));
        }
    }
    /// a rational whose parts are what they read now
    fn push_rat(&mut self, r: Rat) {
        let (_, neg, a, b) = rat_read(&r);
        if a.len() + b.len() <= 24 {
            let (ca, cb) = (self.cell(a), self.cell(b));
            self.push(V::R(r), M::R(ca, neg, cb));
        }
    }
    fn push_float(&mut self, f: Float) {
        if !float_ok(&f) {
            return;
        }
        let fam = self.next;
        self.next += 1;
        self.push_float_fam(f, fam);
    }
    fn push_float_fam(&mut self, f: Float, fam: u32) {
        let sh = f.deep_clone();
        let fp = fingerprint(&f, Some(&sh), true);
        self.push(V::F(f), M::F(fam, fp));
        self.hs.last_mut().unwrap().shadow = Some(sh);
    }

    /// Read every live handle. `what` names the operation that has just been performed.
    pub fn audit(&self, cx: &mut Cx, what: &str) -> Check {
        cx.check();
        for (i, h) in self.hs.iter().enumerate() {
            match (&h.v, &h.m) {
                (V::N(n), M::N(c)) => {
                    let (got, want) = (AsRef::<[u32]>::as_ref(n), self.get(*c));
                    ensure!(got == &want[..] && n.is_nan() == want.is_empty(), "handle-disturbed", "after {}: natural handle {} reads {} instead of {}", what, i, show(got), show(want));
                }
                (V::I(n), M::I(c, neg)) => {
                    let (got, want) = (int_nat(n), self.get(*c));
                    let gl: &[u32] = got.as_ref();
                    ensure!(gl == &want[..] && n.is_negative() == *neg && n.is_nan() == want.is_empty(), "handle-disturbed", "after {}: integer handle {} reads {} instead of {}", what, i, showi(n.is_negative(), gl), showi(*neg, want));
                    if want.is_empty() {
                        ensure!(n.signnum().is_none() && !n.is_natural() && !n.is_positive(), "handle-disturbed", "after {}: integer handle {} is not a number but claims a sign", what, i);
                    }
                }
                (V::R(r), M::R(a, neg, b)) => {
                    let (_, gn, ga, gb) = rat_read(r);
                    ensure!(&ga == self.get(*a) && &gb == self.get(*b) && gn == *neg, "handle-disturbed", "after {}: rational handle {} reads {}/{} instead of {}/{}", what, i, showi(gn, &ga), show(&gb), showi(*neg, self.get(*a)), show(self.get(*b)));
                }
                (V::F(f), M::F(_, fp)) => {
                    let deep = what.starts_with("float") || what == "end";
                    let got = fingerprint(f, h.shadow.as_ref(), deep);
                    ensure!(got[..] == fp[..got.len()], "handle-disturbed", "after {}: float handle {} reads {:.20e} ({:?}) instead of what it read before ({:?})", what, i, f, got, fp);
                }
                _ => unreachable!(),
            }
        }
        let all = self.crowd.1.len();
        for i in (0..all).step_by(all / 10 + 1).chain(all.saturating_sub(2)..all) {
            let (got, want) = (AsRef::<[u32]>::as_ref(&self.crowd.1[i]), self.get(self.crowd.0));
            ensure!(got == &want[..], "handle-disturbed", "after {}: handle {} of a crowd of {} reads {} instead of {}", what, i, all, show(got), show(want));
        }
        Ok(())
    }

    fn pick(&self, k: u8, s: &Step, ai: usize) -> Option<usize> {
        let v = self.kind(k);
        if v.is_empty() {
            None
        } else {
            Some(v[s.idx(ai, v.len())])
        }
    }
    fn cell_of(&self, i: usize) -> u32 {
        match self.hs[i].m {
            M::N(c) | M::I(c, _) | M::R(c, _, _) | M::F(c, _) => c,
        }
    }
    /// second operand: unrelated, the very same handle, or another one that shares its storage
    fn pick2(&self, k: u8, s: &Step, ai: usize, a: usize, rel: u64) -> usize {
        let any = self.pick(k, s, ai).unwrap_or(a);
        match rel % 4 {
            0 | 1 => any,
            2 => a,
            _ => {
                let v: Vec<usize> = self.kind(k).into_iter().filter(|&i| i != a && self.cell_of(i) == self.cell_of(a)).collect();
                if v.is_empty() {
                    a
                } else {
                    v[s.idx(ai, v.len())]
                }
            }
        }
    }
    fn nat(&self, i: usize) -> (Nat, Option<U>) {
        match (&self.hs[i].v, &self.hs[i].m) {
            (V::N(n), M::N(c)) => (n.clone(), val(self.get(*c))),
            _ => unreachable!(),
        }
    }
    fn int(&self, i: usize) -> (BigInt, Option<I>) {
        match (&self.hs[i].v, &self.hs[i].m) {
            (V::I(n), M::I(c, neg)) => (n.clone(), val(self.get(*c)).map(|u| I::new(*neg, u))),
            _ => unreachable!(),
        }
    }
    fn consume(&mut self, s: &Step, a: usize, b: usize) {
        // ownership of the operands moves into the call
        let f = s.arg(5);
        let mut v = vec![];
        if f & 2 != 0 {
            v.push(a);
        }
        if f & 4 != 0 && b != a {
            v.push(b);
        }
        v.sort();
        for i in v.into_iter().rev() {
            self.hs.remove(i);
        }
    }
    fn shared(&self, a: usize) -> bool {
        let c = self.cell_of(a);
        self.hs.iter().enumerate().any(|(i, h)| i != a && matches!(&h.m, M::N(x) | M::I(x, _) | M::F(x, _) if *x == c) || matches!(&h.m, M::R(x, _, y) if i != a && (*x == c || *y == c)))
    }

    fn res_nat(&mut self, cx: &mut Cx, what: &str, mut r: Nat, want: Option<U>, poke: bool) -> Check {
        let mut w = unval(&want);
        let got = nat_limbs(&r);
        cx.obs_limbs(&got);
        ensure!(got == w && r.is_nan() == w.is_empty(), "wrong-result", "{} gives {} instead of {}", what, show(&got), show(&w));
        if poke {
            must("nat += 1", || r += 1u32)?;
            w = unval(&want.map(|u| u.add(&U::from_u64(1))));
            let got = nat_limbs(&r);
            ensure!(got == w, "wrong-result", "adding 1 in place to the result of {} gives {} instead of {}", what, show(&got), show(&w));
            cx.probe("result_changed_in_place");
        }
        self.push_nat(r, w);
        Ok(())
    }
    fn res_int(&mut self, cx: &mut Cx, what: &str, mut r: BigInt, want: Option<I>, poke: bool) -> Check {
        let mut w = want;
        let one = I::from_i64(1);
        for round in 0..1 + poke as u32 {
            if round == 1 {
                must("int += 1", || r += BigInt::from(1u32))?;
                w = w.map(|x| x.add(&one));
                cx.probe("result_changed_in_place");
            }
            let wl = unval(&w.as_ref().map(|x| x.m.clone()));
            let wn = w.as_ref().map_or(false, |x| x.neg);
            let got = int_limbs(&r);
            cx.obs_limbs(&got);
            ensure!(got == wl && r.is_negative() == wn && r.is_nan() == wl.is_empty(), "wrong-result", "{}{} gives {} instead of {}", what, if round == 1 { " and adding 1 in place" } else { "" }, showi(r.is_negative(), &got), showi(wn, &wl));
        }
        let wl = unval(&w.as_ref().map(|x| x.m.clone()));
        self.push_int(r, w.map_or(false, |x| x.neg), wl);
        Ok(())
    }

    // ------------------------------------------------------------------ naturals
    fn nat_value(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
        let b = self.pick2(0, s, 2, a, s.arg(6));
        let c = self.pick2(0, s, 3, a, s.arg(6) >> 2);
        let ((x, xv), (y, yv), (z, zv)) = (self.nat(a), self.nat(b), self.nat(c));
        let (k, e, poke) = (s.arg(0) % 26, s.arg(4), s.arg(5) & 1 != 0);
        let w32 = Prng::new(e).spicy32();
        let (xl, yl) = (self.get(self.cell_of(a)).len(), self.get(self.cell_of(b)).len());
        if self.cell_of(a) == self.cell_of(b) {
            cx.probe("operands_share_storage");
        }
        if self.shared(a) {
            cx.probe("operand_shared_with_bystander");
        }
        if xv.is_none() || yv.is_none() {
            cx.probe("not_a_number_operand");
        }
        let (bx, by) = (xv.as_ref().map_or(0, |u| u.bits()), yv.as_ref().map_or(0, |u| u.bits()));
        let two = |f: &dyn Fn(&U, &U) -> U| match (&xv, &yv) {
            (Some(p), Some(q)) => Some(f(p, q)),
            _ => None,
        };
        let one = |f: &dyn Fn(&U) -> U| xv.as_ref().map(|p| f(p));
        let wu = U::from_u64(w32 as u64);
        let nan = xv.is_none() || yv.is_none();
        let sh = shift(e);
        macro_rules! bin {
            ($name: expr, $real: expr, $ref: expr) => {{
                let want = two($ref);
                self.consume(s, a, b);
                let r = must($name, || $real(x, y))?;
                self.res_nat(cx, &format!("natural {} of {} and {}", $name, xv.as_ref().map_or("NaN".into(), |u| u.hex()), yv.as_ref().map_or("NaN".into(), |u| u.hex())), r, want, poke)
            }};
        }
        macro_rules! una {
            ($name: expr, $real: expr, $ref: expr) => {{
                let want = one($ref);
                self.consume(s, a, a);
                let r = must($name, || $real(x))?;
                self.res_nat(cx, &format!("natural {} of {}, parameter {}", $name, xv.as_ref().map_or("NaN".into(), |u| u.hex()), if $name == "shl" || $name == "shr" { sh as u64 } else { w32 as u64 }), r, want, poke)
            }};
        }
        match k {
            0 => bin!("add", |p: Nat, q: Nat| p + q, &|p, q| p.add(q)),
            1 => bin!("sub", |p: Nat, q: Nat| p - q, &|p, q| p.absdiff(q)),
            2 if xl + yl <= 260 => bin!("mul", |p: Nat, q: Nat| p * q, &|p, q| p.mul(q)),
            3 if nan || !yv.as_ref().unwrap().is_zero() && bx <= by + 3000 => bin!("div", |p: Nat, q: Nat| p / q, &|p, q| p.div(q)),
            4 if nan || !yv.as_ref().unwrap().is_zero() && bx <= by + 3000 => bin!("rem", |p: Nat, q: Nat| p % q, &|p, q| p.rem(q)),
            5 => bin!("and", |p: Nat, q: Nat| p & q, &|p, q| p.and(q)),
            6 => bin!("or", |p: Nat, q: Nat| p | q, &|p, q| p.or(q)),
            7 => bin!("xor", |p: Nat, q: Nat| p ^ q, &|p, q| p.xor(q)),
            8 if !nan => bin!("and_not", |p: Nat, q: Nat| p.and_not(q), &|p, q| p.and_not(q)),
            9 if !nan => bin!("mul_karatsuba", |p: Nat, q: Nat| p.mul_karatsuba(&q), &|p, q| p.mul(q)),
            10 => {
                let ge = match (&xv, &yv) {
                    (Some(p), Some(q)) => !p.lt(q),
                    _ => false,
                };
                let want = two(&|p, q| p.absdiff(q));
                self.consume(s, a, b);
                let (r, g) = must("sub_with_sign", || x.sub_with_sign(y))?;
                ensure!(g == ge, "wrong-result", "sub_with_sign says {} for {:?} >= {:?}", g, xv, yv);
                self.res_nat(cx, "sub_with_sign", r, want, poke)
            }
            11 if !nan => {
                let (y, yv) = match yv.as_ref().and_then(|u| u.to_u64()).filter(|&q| q <= 12) {
                    Some(q) => (y, q as u32),
                    None => (Nat::from((e % 11) as u32), (e % 11) as u32),
                };
                if xl * yv as usize > 200 {
                    return Ok(());
                }
                let want = one(&|p| p.pow(yv));
                let r = must("pow", || x.pow(y))?;
                self.res_nat(cx, &format!("{} to the power {}", xv.as_ref().unwrap().hex(), yv), r, want, poke)
            }
            12 | 13 if !nan && zv.is_some() => {
                let (xu, yu, zu) = (xv.as_ref().unwrap(), yv.as_ref().unwrap(), zv.as_ref().unwrap());
                if xl > 8 || yl > 4 || zu.bits() > 256 {
                    return Ok(());
                }
                let want = if zu.is_zero() {
                    if yu.bits() > 4 || xl > 3 {
                        return Ok(());
                    }
                    xu.pow(yu.to_u64().unwrap_or(0) as u32)
                } else {
                    xu.powmod(yu, zu)
                };
                let r = if k == 12 { must("pow_mod", || x.pow_mod(y, z))? } else { must("exp", || x.exp(&y, &z))? };
                self.res_nat(cx, &format!("{} of {}, {}, {}", if k == 12 { "pow_mod" } else { "exp" }, xu.hex(), yu.hex(), zu.hex()), r, Some(want), poke)
            }
            14 => una!("add word", |p: Nat| p + w32, &|p| p.add(&wu)),
            15 => una!("sub word", |p: Nat| p - w32, &|p| p.absdiff(&wu)),
            16 => una!("mul word", |p: Nat| p * w32, &|p| p.mul(&wu)),
            17 if w32 != 0 => una!("div word", |p: Nat| p / w32, &|p| p.div(&wu)),
            18 if w32 != 0 => una!("rem word", |p: Nat| p % w32, &|p| p.rem(&wu)),
            19 => una!("shl", |p: Nat| p << sh, &|p| p.shl(sh)),
            20 => una!("shr", |p: Nat| p >> sh, &|p| p.shr(sh)),
            21 if xv.is_some() && xl <= 20 => una!("sqrt", |p: Nat| p.sqrt(), &|p| p.isqrt()),
            22 if xv.is_some() => una!("sqr", |p: Nat| p.sqr(), &|p| p.mul(p)),
            23 => una!("not", |p: Nat| !p, &|p| {
                let n = p.bits().max(1);
                U::from_u64(1).shl(n).sub(&U::from_u64(1)).sub(p)
            }),
            24 if xv.is_some() => {
                let u = xv.as_ref().unwrap();
                let n = u.bits().max(1);
                let got = must("bits_len", || x.bits_len())?;
                ensure!(got == n, "wrong-result", "bits_len of {} is {}", u.hex(), got);
                let i = (e as usize) % (n + 40);
                let b = must("is_set_bit", || x.is_set_bit(i))?;
                ensure!(b == if i < n { Some(u.bit(i)) } else { None }, "wrong-result", "bit {} of {} is reported {:?}", i, u.hex(), b);
                if !u.is_zero() {
                    let t = must("trailling_zeros", || x.trailling_zeros())?;
                    ensure!(t == u.trailing_zeros(), "wrong-result", "trailing zeros of {}: {}", u.hex(), t);
                }
                Ok(())
            }
            25 if xv.is_some() => {
                // bytes and back: a fresh value
                let le = must("to_le_bytes", || x.to_le_bytes())?;
                let mut be = must("to_be_bytes", || x.to_be_bytes())?;
                let r = if e & 1 == 0 { must("from_le_bytes", || Nat::from_le_bytes(&le))? } else { must("from_be_bytes", || Nat::from_be_bytes(&be))? };
                be.reverse();
                ensure!(le == be, "wrong-result", "little and big endian bytes of {} differ", xv.as_ref().unwrap().hex());
                self.res_nat(cx, "bytes round trip", r, xv, poke)
            }
            _ => Ok(()),
        }
    }

    /// drop handles that cannot have a meaning once the cell has changed, then settle the signs
    fn after_inplace(&mut self, cx: &mut Cx, dst: usize, new: Vec<u32>, sign: Option<(bool, bool)>) -> usize {
        let c = self.cell_of(dst);
        let zero = new == [0];
        let nan = new.is_empty();
        self.cells.insert(c, new);
        let mut keep = vec![true; self.hs.len()];
        for i in 0..self.hs.len() {
            if i == dst {
                if let (M::I(_, n), Some((_, now))) = (&mut self.hs[i].m, sign) {
                    *n = now;
                }
                continue;
            }
            let real_neg = match &self.hs[i].v {
                V::I(x) => x.is_negative(),
                _ => false,
            };
            match &mut self.hs[i].m {
                M::I(x, n) if *x == c => {
                    if let Some((before, now)) = sign {
                        // a handle that shared the whole value should follow the sign as well
                        if *n == before && real_neg != now {
                            *cx.known.entry("bigint-stale-sign").or_insert(0) += 1;
                            *n = real_neg;
                        } else if *n == before {
                            *n = now;
                        }
                    }
                    if nan {
                        *n = false;
                    }
                    if zero && real_neg {
                        // reads as a negative zero: the same finding
                        *cx.known.entry("bigint-stale-sign").or_insert(0) += 1;
                        keep[i] = false;
                    }
                }
                M::R(x, _, y) if *x == c || *y == c => keep[i] = false,
                _ => {}
            }
        }
        let mut k = keep.iter();
        self.hs.retain(|_| *k.next().unwrap());
        keep[..dst].iter().filter(|x| **x).count()
    }

    fn nat_inplace(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
        let b = self.pick2(0, s, 2, a, s.arg(6));
        let (xv, (y, yv)) = (self.nat(a).1, self.nat(b));
        let (k, e) = (s.arg(0) % 18, s.arg(4));
        let w32 = Prng::new(e).spicy32();
        let wu = U::from_u64(w32 as u64);
        let sh = shift(e);
        let nan = xv.is_none() || yv.is_none();
        let (bx, by) = (xv.as_ref().map_or(0, |u| u.bits()), yv.as_ref().map_or(0, |u| u.bits()));
        let xl = self.get(self.cell_of(a)).len();
        let yl = self.get(self.cell_of(b)).len();
        let alias = self.cell_of(a) == self.cell_of(b);
        let ok = match k {
            0 | 11 | 12 => bx.max(by) < 2500,
            2 => xl + yl <= 80,
            3 | 4 => nan || !yv.as_ref().unwrap().is_zero() && bx <= by + 3000,
            8 => !nan,
            13 | 14 => w32 != 0,
            15 => bx + sh < 2500,
            10 => xl < 78,
            _ => true,
        };
        if !ok {
            return Ok(());
        }
        let two = |f: &dyn Fn(&U, &U) -> U| match (&xv, &yv) {
            (Some(p), Some(q)) => Some(f(p, q)),
            _ => None,
        };
        let one = |f: &dyn Fn(&U) -> U| xv.as_ref().map(|p| f(p));
        let want = match k {
            0 => two(&|p, q| p.add(q)),
            1 | 9 => two(&|p, q| p.absdiff(q)),
            2 => two(&|p, q| p.mul(q)),
            3 => two(&|p, q| p.div(q)),
            4 => two(&|p, q| p.rem(q)),
            5 => two(&|p, q| p.and(q)),
            6 => two(&|p, q| p.or(q)),
            7 => two(&|p, q| p.xor(q)),
            8 => two(&|p, q| p.and_not(q)),
            10 => one(&|p| p.mul(&wu)),
            11 => one(&|p| p.add(&wu)),
            12 => one(&|p| p.absdiff(&wu)),
            13 => one(&|p| p.div(&wu)),
            14 => one(&|p| p.rem(&wu)),
            15 => one(&|p| p.shl(sh)),
            16 => one(&|p| p.shr(sh)),
            _ => two(&|p, q| p.add(q)),
        };
        let name = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "and_not_assign", "sub_assign_with_sign", "*= word", "+= word", "-= word", "/= word", "%= word", "<<=", ">>=", "+="][k as usize];
        let what = format!("nat {}", name);
        if alias && k < 10 {
            cx.probe("inplace_operand_shares_storage");
        }
        if self.shared(a) {
            cx.probe("inplace_on_shared_storage");
        }
        let (p, q) = (xv.as_ref().map_or("NaN".into(), |u| u.hex()), yv.as_ref().map_or("NaN".into(), |u| u.hex()));
        cx.say(|| format!("task {}: handle {} ({}) {} handle {} ({}){}", s.task, a, p, name, b, q, if k >= 10 { format!(" word {} shift {}", w32, sh) } else { String::new() }));
        let V::N(x) = &mut self.hs[a].v else { unreachable!() };
        must(&what, || match k {
            0 | 17 => *x += y,
            1 => *x -= y,
            2 => *x *= y,
            3 => *x /= y,
            4 => *x %= y,
            5 => *x &= y,
            6 => *x |= y,
            7 => *x ^= y,
            8 => x.and_not_assign(y),
            9 => {
                x.sub_assign_with_sign(y);
            }
            10 => *x *= w32,
            11 => *x += w32,
            12 => *x -= w32,
            13 => *x /= w32,
            14 => *x %= w32,
            15 => *x <<= sh,
            _ => *x >>= sh,
        })?;
        let w = unval(&want);
        let got = nat_limbs(x);
        cx.obs_limbs(&got);
        ensure!(got == w && x.is_nan() == w.is_empty(), "wrong-result", "{} on {} with {}{} leaves {} instead of {}", what, p, if k < 10 || k > 16 { q } else if k > 14 { sh.to_string() } else { format!("{:#x}", w32) }, if alias && k < 10 { " (shared storage)" } else { "" }, show(&got), show(&w));
        self.after_inplace(cx, a, w, None);
        Ok(())
    }

    // ------------------------------------------------------------------ integers
    fn int_value(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
        let b = self.pick2(1, s, 2, a, s.arg(6));
        let c = self.pick2(1, s, 3, a, s.arg(6) >> 2);
        let ((x, xv), (y, yv), (z, zv)) = (self.int(a), self.int(b), self.int(c));
        let (k, e, poke) = (s.arg(0) % 26, s.arg(4), s.arg(5) & 1 != 0);
        let (xl, yl) = (self.get(self.cell_of(a)).len(), self.get(self.cell_of(b)).len());
        let nan = xv.is_none() || yv.is_none();
        let sh = shift(e);
        if self.cell_of(a) == self.cell_of(b) {
            cx.probe("operands_share_storage");
        }
        if self.shared(a) {
            cx.probe("operand_shared_with_bystander");
        }
        let hx = |v: &Option<I>| v.as_ref().map_or("NaN".to_string(), |u| u.hex());
        let what = format!("int op {} of {} and {} (shift {})", k, hx(&xv), hx(&yv), sh);
        macro_rules! bin {
            ($name: expr, $real: expr, $ref: expr) => {{
                let want = match (&xv, &yv) {
                    (Some(p), Some(q)) => Some($ref(p, q)),
                    _ => None,
                };
                self.consume(s, a, b);
                let r = must(concat!("int ", $name), || $real(x, y))?;
                self.res_int(cx, &format!("integer {} of {} and {}", $name, hx(&xv), hx(&yv)), r, want, poke)
            }};
        }
        macro_rules! una {
            ($name: expr, $real: expr, $ref: expr) => {{
                let want = xv.as_ref().map($ref);
                self.consume(s, a, a);
                let r = must(concat!("int ", $name), || $real(x))?;
                self.res_int(cx, &format!("integer {} of {} (shift {})", $name, hx(&xv), sh), r, want, poke)
            }};
        }
        let nz = || yv.as_ref().map_or(false, |q| !q.m.is_zero()) && xv.as_ref().unwrap().m.bits() <= yv.as_ref().unwrap().m.bits() + 3000;
        match k {
            0 => bin!("add", |p: BigInt, q: BigInt| p + q, |p: &I, q: &I| p.add(q)),
            1 => bin!("sub", |p: BigInt, q: BigInt| p - q, |p: &I, q: &I| p.sub(q)),
            2 if xl + yl <= 260 => bin!("mul", |p: BigInt, q: BigInt| p * q, |p: &I, q: &I| p.mul(q)),
            _ if nan => Ok(()),
            3 if nz() => bin!("div", |p: BigInt, q: BigInt| p / q, |p: &I, q: &I| p.div(q)),
            4 if nz() => bin!("rem", |p: BigInt, q: BigInt| p % q, |p: &I, q: &I| p.rem(q)),
            5 => bin!("and", |p: BigInt, q: BigInt| p & q, |p: &I, q: &I| p.and(q)),
            6 => bin!("or", |p: BigInt, q: BigInt| p | q, |p: &I, q: &I| p.or(q)),
            7 => bin!("xor", |p: BigInt, q: BigInt| p ^ q, |p: &I, q: &I| p.xor(q)),
            8 => bin!("and_not", |p: BigInt, q: BigInt| p.and_not(q), |p: &I, q: &I| p.and_not(q)),
            9 => una!("shl", |p: BigInt| p << sh, |p: &I| p.shl(sh)),
            10 => una!("shr", |p: BigInt| p >> sh, |p: &I| p.shr(sh)),
            11 => una!("neg", |p: BigInt| -p, |p: &I| p.neg()),
            12 => una!("not", |p: BigInt| !p, |p: &I| p.not()),
            13 => una!("abs", |p: BigInt| p.abs(), |p: &I| I::pos(p.m.clone())),
            14 => una!("sqr", |p: BigInt| p.sqr(), |p: &I| I::pos(p.m.mul(&p.m))),
            15 if xl <= 20 => {
                let want = xv.as_ref().and_then(|p| if p.neg { None } else { Some(I::pos(p.m.isqrt())) });
                let r = must("int sqrt", || x.sqrt())?;
                self.res_int(cx, &format!("square root of {}", hx(&xv)), r, want, poke)
            }
            16 if nz() => bin!("rem_euclid", |p: BigInt, q: BigInt| p.rem_euclid(q), |p: &I, q: &I| p.rem_euclid(q)),
            17 if nz() => bin!("div_euclid", |p: BigInt, q: BigInt| p.div_euclid(q), |p: &I, q: &I| p.div_euclid(q)),
            18 if xl + yl <= 16 => {
                let (p, q) = (xv.as_ref().unwrap(), yv.as_ref().unwrap());
                self.consume(s, a, b);
                let (d, u, v) = must("gcd", || x.gcd(y))?;
                let rd = |i: &BigInt| val(&int_limbs(i)).map(|m| I { neg: i.is_negative(), m });
                let (du, uu, vu) = (rd(&d), rd(&u), rd(&v));
                ensure!(du == Some(I::pos(p.m.gcd(&q.m))), "wrong-result", "gcd of {} and {} is {}", p.hex(), q.hex(), hx(&du));
                if let (Some(uu), Some(vu)) = (&uu, &vu) {
                    ensure!(uu.mul(p).add(&vu.mul(q)) == *du.as_ref().unwrap(), "wrong-result", "gcd coefficients {} and {} of {} and {}", uu.hex(), vu.hex(), p.hex(), q.hex());
                } else {
                    ensure!(false, "wrong-result", "gcd coefficients of {} and {} are not numbers", p.hex(), q.hex());
                }
                // three results that must not share anything among themselves or with the operands
                self.res_int(cx, "gcd", d, du, poke)?;
                self.res_int(cx, "gcd coefficient", u, uu, false)?;
                self.res_int(cx, "gcd coefficient", v, vu, poke)
            }
            19 if xl + yl <= 12 => {
                let (p, q) = (xv.as_ref().unwrap(), yv.as_ref().unwrap());
                if q.m.is_zero() {
                    return Ok(());
                }
                if !p.m.gcd(&q.m).is_one() {
                    return Ok(()); // no inverse: what comes back is left open
                }
                let r = must("mod_inverse", || x.mod_inverse(y))?;
                let got = val(&int_limbs(&r)).map(|m| I { neg: r.is_negative(), m });
                let m = I::pos(q.m.clone());
                ensure!(got.as_ref().map_or(false, |g| g.mul(p).sub(&I::from_i64(1)).rem_euclid(&m).m.is_zero()), "wrong-result", "inverse of {} modulo {} is {}", p.hex(), q.hex(), hx(&got));
                self.res_int(cx, "mod_inverse", r, got, poke)
            }
            20 if yl <= 8 && xl <= 16 => {
                let (p, q) = (xv.as_ref().unwrap(), yv.as_ref().unwrap());
                if q.neg || !q.m.is_odd() {
                    return Ok(());
                }
                let want = U::jacobi(&p.rem_euclid(q).m, &q.m);
                let r = must("jacobi", || x.jacobi(&y))?;
                cx.obs(r.unwrap_or(5) as u64);
                ensure!(r == Some(want as isize), "wrong-result", "Jacobi symbol of {} and {} is {:?}", p.hex(), q.hex(), r);
                Ok(())
            }
            21 if xl <= 8 => {
                let p = U::parse_hex(ODD_PRIMES[e as usize % ODD_PRIMES.len()]);
                let pp = BigInt::from(p.lib_limbs());
                let pi = I::pos(p.clone());
                let xm = xv.as_ref().unwrap().rem_euclid(&pi);
                let j = U::jacobi(&xm.m, &p);
                let r = must("mod_sqrt", || x.mod_sqrt(&pp))?;
                let rl = int_limbs(&pp);
                ensure!(rl == p.lib_limbs(), "handle-disturbed", "mod_sqrt changed its modulus {} to {}", p.hex(), show(&rl));
                match r {
                    None => ensure!(j == -1, "wrong-result", "{} is said to have no square root modulo {}", xm.hex(), p.hex()),
                    Some(y) => {
                        let got = val(&int_limbs(&y)).map(|m| I { neg: y.is_negative(), m });
                        ensure!(j != -1 && got.as_ref().map_or(false, |g| g.mul(g).rem_euclid(&pi) == xm), "wrong-result", "square root of {} modulo {} is {}", xm.hex(), p.hex(), hx(&got));
                        self.res_int(cx, "mod_sqrt", y, got, poke)?;
                    }
                }
                Ok(())
            }
            22 if zv.is_some() && xl <= 4 && yl <= 4 => {
                // a x = b (mod n) with small n: every solution, each a value of its own
                let n = zv.as_ref().unwrap();
                let (p, q) = (xv.as_ref().unwrap(), yv.as_ref().unwrap());
                if n.m.bits() > 12 || n.m.is_zero() {
                    return Ok(());
                }
                let (cp, cq, cn) = (x.deep_clone(), y.deep_clone(), z.deep_clone());
                let want = guard(|| cp.solve_mod_linear_equation(cq, cn)).ok().flatten().map(|v| v.iter().map(|i| (i.is_negative(), int_limbs(i))).collect::<Vec<_>>());
                let got = guard(|| x.solve_mod_linear_equation(y, z)).ok().flatten().map(|v| v.iter().map(|i| (i.is_negative(), int_limbs(i))).collect::<Vec<_>>());
                ensure!(got == want, "wrong-result", "solutions of {} x = {} mod {} differ between shared and independent operands", p.hex(), q.hex(), n.hex());
                // and all of them: n has at most 12 bits
                let m = n.m.to_u64().unwrap();
                let mi = I::pos(n.m.clone());
                let (pm, qm) = (p.rem_euclid(&mi).m.to_u64().unwrap(), q.rem_euclid(&mi).m.to_u64().unwrap());
                let all: Vec<u64> = (0..m).filter(|i| pm * i % m == qm).collect();
                let mut have: Vec<u64> = vec![];
                for (neg, l) in got.iter().flatten() {
                    match val(l).and_then(|v| v.to_u64()) {
                        Some(v) if !*neg => have.push(v),
                        _ => return violation("wrong-result", format!("a solution of {} x = {} mod {} is {}", p.hex(), q.hex(), n.hex(), showi(*neg, l))),
                    }
                }
                have.sort_unstable();
                ensure!(have == all, "wrong-result", "the solutions of {} x = {} mod {} are given as {:?}", p.hex(), q.hex(), n.hex(), have);
                Ok(())
            }
            23 if zv.is_some() && xl <= 6 && yl <= 3 => {
                let n = zv.as_ref().unwrap();
                let (p, q) = (xv.as_ref().unwrap(), yv.as_ref().unwrap());
                if n.m.bits() > 200 {
                    return Ok(());
                }
                let want = if n.m.is_zero() {
                    // no modulus: the plain power
                    if q.neg || q.m.is_zero() {
                        Some(I::from_i64(1))
                    } else if q.m.bits() <= 6 {
                        Some(I::new(p.neg && q.m.is_odd(), p.m.pow(q.m.to_u64().unwrap() as u32)))
                    } else {
                        return Ok(());
                    }
                } else if q.neg {
                    let base = p.rem_euclid(&I::pos(n.m.clone())).m;
                    // without an inverse the documentation says not-a-number and the tests say otherwise
                    let Some(i) = base.inverse(&n.m) else { return Ok(()) };
                    Some(I::pos(i.powmod(&q.m, &n.m)))
                } else {
                    Some(I::pos(p.rem_euclid(&I::pos(n.m.clone())).m.powmod(&q.m, &n.m)))
                };
                if q.neg {
                    cx.probe("negative_exponent");
                }
                let r = must("int exp", || x.exp(&y, &z))?;
                self.res_int(cx, &format!("{} ^ {} mod {}", p.hex(), q.hex(), n.hex()), r, want, poke)
            }
            24 => {
                let u = xv.as_ref().unwrap();
                let n = u.m.bits().max(1);
                let got = must("int bits_len", || x.bits_len())?;
                ensure!(got == n, "wrong-result", "bits_len of {} is {}", u.hex(), got);
                let sg = x.signnum();
                ensure!(sg == Some(if u.neg { -1 } else if u.m.is_zero() { 0 } else { 1 }), "wrong-result", "sign of {} is {:?}", u.hex(), sg);
                ensure!(x.is_natural() != u.neg && x.is_positive() == (!u.neg && !u.m.is_zero()), "wrong-result", "sign predicates of {}", u.hex());
                Ok(())
            }
            _ => {
                let _ = what;
                Ok(())
            }
        }
    }

    fn int_inplace(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
        let b = self.pick2(1, s, 2, a, s.arg(6));
        let (xv, (y, yv)) = (self.int(a).1, self.int(b));
        let (k, e) = (s.arg(0) % 15, s.arg(4));
        let sh = shift(e);
        let nan = xv.is_none() || yv.is_none();
        let (xl, yl) = (self.get(self.cell_of(a)).len(), self.get(self.cell_of(b)).len());
        let alias = self.cell_of(a) == self.cell_of(b);
        let ok = match k {
            0 | 1 => xl.max(yl) < 78,
            2 => xl + yl <= 80,
            _ if nan => false,
            3 | 4 | 11 | 12 => !yv.as_ref().unwrap().m.is_zero() && xv.as_ref().unwrap().m.bits() <= yv.as_ref().unwrap().m.bits() + 3000,
            9 => xl * 32 + sh < 2500,
            5 | 6 | 7 | 8 => xl.max(yl) < 78,
            _ => true,
        };
        if !ok {
            return Ok(());
        }
        let hx = |v: &Option<I>| v.as_ref().map_or("NaN".to_string(), |u| u.hex());
        let two = |f: &dyn Fn(&I, &I) -> I| match (&xv, &yv) {
            (Some(p), Some(q)) => Some(f(p, q)),
            _ => None,
        };
        let want = match k {
            0 => two(&|p, q| p.add(q)),
            1 => two(&|p, q| p.sub(q)),
            2 => two(&|p, q| p.mul(q)),
            3 => two(&|p, q| p.div(q)),
            4 => two(&|p, q| p.rem(q)),
            5 => two(&|p, q| p.and(q)),
            6 => two(&|p, q| p.or(q)),
            7 => two(&|p, q| p.xor(q)),
            8 => two(&|p, q| p.and_not(q)),
            9 => xv.as_ref().map(|p| p.shl(sh)),
            10 => xv.as_ref().map(|p| p.shr(sh)),
            11 => two(&|p, q| p.rem_euclid(q)),
            12 => two(&|p, q| p.div_euclid(q)),
            13 => xv.as_ref().map(|p| I::new(true, p.m.clone())),
            _ => xv.as_ref().map(|p| I::pos(p.m.clone())),
        };
        let name = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "and_not_assign", "<<=", ">>=", "rem_euclid_assign", "div_euclid_assign", "set_negative", "set_natural"][k as usize];
        let what = format!("int {}", name);
        if alias && k < 9 || alias && (k == 11 || k == 12) {
            cx.probe("inplace_operand_shares_storage");
            if xv.as_ref().map(|p| p.neg) != yv.as_ref().map(|p| p.neg) {
                cx.probe("inplace_operand_shares_storage_opposite_sign");
            }
        }
        if self.shared(a) {
            cx.probe("inplace_on_shared_storage");
        }
        cx.say(|| format!("task {}: handle {} ({}) {} handle {} ({}) shift {}", s.task, a, hx(&xv), name, b, hx(&yv), sh));
        let V::I(x) = &mut self.hs[a].v else { unreachable!() };
        must(&what, || match k {
            0 => *x += y,
            1 => *x -= y,
            2 => *x *= y,
            3 => *x /= y,
            4 => *x %= y,
            5 => *x &= y,
            6 => *x |= y,
            7 => *x ^= y,
            8 => x.and_not_assign(y),
            9 => *x <<= sh,
            10 => *x >>= sh,
            11 => x.rem_euclid_assign(y),
            12 => x.div_euclid_assign(y),
            13 => x.set_negative(),
            _ => x.set_natural(),
        })?;
        let (wl, wn) = (unval(&want.as_ref().map(|w| w.m.clone())), want.as_ref().map_or(false, |w| w.neg));
        let (gl, gn) = (int_limbs(x), x.is_negative());
        cx.obs_limbs(&gl);
        ensure!(gl == wl && gn == wn && x.is_nan() == wl.is_empty(), "wrong-result", "{} on {} with {}{} leaves {} instead of {}", what, hx(&xv), if k == 9 || k == 10 { sh.to_string() } else { hx(&yv) }, if alias { " (shared storage)" } else { "" }, showi(gn, &gl), showi(wn, &wl));
        let before = xv.as_ref().map_or(false, |p| p.neg);
        self.after_inplace(cx, a, wl, Some((before, wn)));
        Ok(())
    }

    // ------------------------------------------------------------------ rationals
    fn rat(&self, i: usize) -> Rat {
        match &self.hs[i].v {
            V::R(r) => r.clone(),
            _ => unreachable!(),
        }
    }
    fn rat_small(&self, i: usize) -> bool {
        match self.hs[i].m {
            M::R(a, _, b) => self.get(a).len() + self.get(b).len() <= 16,
            _ => false,
        }
    }
    fn rat_value(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(2, s, 1) else { return Ok(()) };
        let b = self.pick2(2, s, 2, a, s.arg(6));
        if !self.rat_small(a) || !self.rat_small(b) {
            return Ok(());
        }
        let (x, y) = (self.rat(a), self.rat(b));
        let (cxx, cy) = (x.deep_clone(), y.deep_clone());
        let (k, poke) = (s.arg(0) % 8, s.arg(5) & 1 != 0);
        if self.cell_of(a) == self.cell_of(b) {
            cx.probe("operands_share_storage");
        }
        let f = move |p: Rat, q: Rat| -> Result<Option<Rat>, Caught> {
            guard(|| match k {
                0 => Some(p + q),
                1 => Some(p - q),
                2 => Some(p * q),
                3 => Some(p / q),
                4 => Some(-p),
                5 => Some(p.abs()),
                6 => p.inv().ok(),
                _ => Some(p * q),
            })
        };
        let (p, q) = (rat_read(&cxx), rat_read(&cy));
        let exact = rat_exact(k, &p, &q);
        // the order of two fractions is the sign of their difference
        let order = guard(|| (x.partial_cmp(&y), x == y));
        if let Some((d, _)) = rat_exact(1, &p, &q) {
            let o = if d.m.is_zero() { std::cmp::Ordering::Equal } else if d.neg { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
            ensure!(matches!(order, Ok((Some(g), e)) if g == o && e == (o == std::cmp::Ordering::Equal)), "wrong-value", "the comparison of {}/{} and {}/{} is not {:?}", showi(p.1, &p.2), show(&p.3), showi(q.1, &q.2), show(&q.3), o);
        }
        self.consume(s, a, b);
        let want = f(cxx, cy);
        let got = f(x, y);
        ensure!(exact.is_none() || matches!(got, Ok(Some(_))), "wrong-value", "rational operation {} fails though its value is defined", k);
        match (got, want) {
            (Ok(Some(mut r)), Ok(Some(w))) => {
                let (g, w) = (rat_read(&r), rat_read(&w));
                if let Some(e) = &exact {
                    cx.probe("rational_value_exact");
                    cx.check();
                    rat_is(&format!("rational operation {}", k), &g, r.denominator().is_negative(), e)?;
                }
                cx.obs_limbs(&g.2);
                cx.obs_limbs(&g.3);
                ensure!(g == w, "shared-differs", "rational operation {} gives {}/{} on shared and {}/{} on independent operands", k, showi(g.1, &g.2), show(&g.3), showi(w.1, &w.2), show(&w.3));
                if poke {
                    // change both parts of the result in place through handles that share them
                    let (mut n, mut d) = (r.numerator().clone(), r.denominator().clone());
                    let _ = guard(|| n += BigInt::from(1u32));
                    let _ = guard(|| d += BigInt::from(1u32));
                    cx.probe("result_changed_in_place");
                    return Ok(());
                }
                r = Rat::clone(&r);
                let i = if s.arg(4) & 4 == 0 { a } else { b };
                let operand = if s.arg(5) & 6 == 0 && s.arg(4) % 4 == 1 { Some((self.rat(i), self.hs[i].m.clone())) } else { None };
                self.push_rat(r);
                if let Some((q, M::R(ca, _, cb))) = operand {
                    // change both parts of an operand in place: the result must not move
                    let (mut n, mut d) = (q.numerator().clone(), q.denominator().clone());
                    self.release(ca);
                    self.release(cb);
                    let _ = guard(|| n += BigInt::from(1u32));
                    let _ = guard(|| d += BigInt::from(1u32));
                    cx.probe("operand_changed_in_place");
                }
                Ok(())
            }
            (Ok(None), Ok(None)) | (Err(_), Err(_)) => Ok(()),
            _ => violation("shared-differs", format!("rational operation {} panics or fails on only one of shared and independent operands", k)),
        }
    }
    fn rat_inplace(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(2, s, 1) else { return Ok(()) };
        let b = self.pick2(2, s, 2, a, s.arg(6));
        if !self.rat_small(a) || !self.rat_small(b) {
            return Ok(());
        }
        let k = s.arg(0) % 4;
        let (y, cy) = (self.rat(b), self.rat(b).deep_clone());
        let mut cxx = self.rat(a).deep_clone();
        if matches!((&self.hs[b].m, k), (M::R(n, _, _), 3) if self.get(*n) == &[0]) {
            return Ok(());
        }
        if self.cell_of(a) == self.cell_of(b) {
            cx.probe("inplace_operand_shares_storage");
        }
        let f = |p: &mut Rat, q: Rat| {
            guard(|| match k {
                0 => *p += q,
                1 => *p -= q,
                2 => *p *= q,
                _ => *p /= q,
            })
        };
        let exact = rat_exact(k, &rat_read(&cxx), &rat_read(&cy));
        let want = f(&mut cxx, cy);
        let mut h = self.hs.remove(a);
        let V::R(x) = &mut h.v else { unreachable!() };
        let got = f(x, y);
        if let Some(e) = &exact {
            ensure!(got.is_ok(), "wrong-value", "in-place rational operation {} fails though its value is defined", k);
            cx.check();
            rat_is(&format!("in-place rational operation {}", k), &rat_read(x), x.denominator().is_negative(), e)?;
        }
        ensure!(got.is_ok() == want.is_ok(), "shared-differs", "in-place rational operation {} panics on only one of shared and independent operands", k);
        if got.is_ok() {
            let (g, w) = (rat_read(x), rat_read(&cxx));
            cx.obs_limbs(&g.2);
            cx.obs_limbs(&g.3);
            ensure!(g == w, "shared-differs", "in-place rational operation {} leaves {}/{} with a shared and {}/{} with an independent operand", k, showi(g.1, &g.2), show(&g.3), showi(w.1, &w.2), show(&w.3));
        }
        // whoever shared a part with the destination is released: its reading is not specified
        let M::R(ca, _, cb) = h.m else { unreachable!() };
        self.release(ca);
        self.release(cb);
        if got.is_ok() {
            let V::R(x) = h.v else { unreachable!() };
            self.push_rat(x);
        }
        Ok(())
    }
    /// drop every handle that shares this cell
    fn release(&mut self, c: u32) {
        if self.crowd.0 == c {
            self.crowd = (0, vec![]);
        }
        self.hs.retain(|h| match h.m {
            M::N(x) | M::I(x, _) | M::F(x, _) => x != c,
            M::R(x, _, y) => x != c && y != c,
        });
    }

    // ------------------------------------------------------------------ floats
    fn float(&self, i: usize) -> Float {
        match &self.hs[i].v {
            V::F(f) => f.clone(),
            _ => unreachable!(),
        }
    }
    fn float_value(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(3, s, 1) else { return Ok(()) };
        let b = self.pick2(3, s, 2, a, s.arg(6));
        let (x, y) = (self.float(a), self.float(b));
        let (cxx, cy) = (x.deep_clone(), y.deep_clone());
        let (k, poke) = (s.arg(0) % 8, s.arg(5) & 1 != 0);
        if self.cell_of(a) == self.cell_of(b) {
            cx.probe("operands_share_storage");
        }
        let f = move |p: Float, q: Float| {
            guard(|| match k {
                0 => p + q,
                1 => p - q,
                2 => p * q,
                3 => p / q,
                4 => -p,
                5 => p.abs(),
                6 => p.mant_exp().0,
                _ => p - q,
            })
        };
        self.consume(s, a, b);
        let want = f(cxx, cy);
        let got = f(x, y);
        match (got, want) {
            (Ok(mut r), Ok(w)) => {
                let (g, wf) = (fingerprint(&r, None, true), fingerprint(&w, None, true));
                g.iter().for_each(|v| cx.obs(*v));
                ensure!(g == wf, "shared-differs", "float operation {} gives {:.20e} on shared and {:.20e} on independent operands", k, r, w);
                if poke {
                    let one = Float::from(1u32);
                    let _ = guard(|| r += one);
                    let _ = guard(|| r *= r.clone());
                    cx.probe("result_changed_in_place");
                }
                let i = if s.arg(4) & 4 == 0 { a } else { b };
                let operand = if s.arg(5) & 6 == 0 && s.arg(4) % 4 == 1 { Some((self.float(i), self.cell_of(i))) } else { None };
                self.push_float(r);
                if let Some((mut c, fam)) = operand {
                    // change an operand in place through a handle that shares it: the result must not move
                    self.release(fam);
                    let d = Float::from(2.5 + (s.arg(4) >> 3 & 0xffff) as f64);
                    let _ = guard(|| if s.arg(4) & 8 == 0 { c += d } else { c -= d });
                    cx.probe("operand_changed_in_place");
                    self.push_float(c);
                }
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            _ => violation("shared-differs", format!("float operation {} panics on only one of shared and independent operands", k)),
        }
    }
    fn float_inplace(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(3, s, 1) else { return Ok(()) };
        let b = self.pick2(3, s, 2, a, s.arg(6));
        let k = s.arg(0) % 8;
        let e = s.arg(4);
        let (y, cy) = (self.float(b), self.float(b).deep_clone());
        let mut cxx = self.float(a).deep_clone();
        if self.cell_of(a) == self.cell_of(b) {
            cx.probe("inplace_operand_shares_storage");
        }
        let f = |p: &mut Float, q: Float| {
            guard(|| match k {
                0 => *p += q,
                1 => *p -= q,
                2 => *p *= q,
                3 => *p /= q,
                4 => p.set_precision(1 + (e % 200) as usize),
                5 => p.set_mode(mode_of(e)),
                6 => p.set_mant_exp(q, (e % 64) as isize - 32),
                _ => *p *= q,
            })
        };
        let want = f(&mut cxx, cy);
        let fam = self.cell_of(a);
        let mut h = self.hs.remove(a);
        let V::F(x) = &mut h.v else { unreachable!() };
        let got = f(x, y);
        ensure!(got.is_ok() == want.is_ok(), "shared-differs", "in-place float operation {} panics on only one of shared and independent operands", k);
        if got.is_ok() {
            let (g, w) = (fingerprint(x, None, true), fingerprint(&cxx, None, true));
            g.iter().for_each(|v| cx.obs(*v));
            ensure!(g == w, "shared-differs", "in-place float operation {} leaves {:.20e} with a shared and {:.20e} with an independent operand", k, x, cxx);
        }
        self.release(fam);
        if got.is_ok() {
            let V::F(x) = h.v else { unreachable!() };
            self.push_float(x);
        }
        Ok(())
    }

    // ------------------------------------------------------------------ construction, sharing
    /// a magnitude derived from live ones
    fn related(&self, k: u8, s: &Step) -> Option<U> {
        if s.arg(4) == 0 {
            return None;
        }
        let get = |ai: usize| self.pick(k, s, ai).and_then(|i| val(self.get(self.cell_of(i))));
        let (x, y) = (get(5)?, get(6)?);
        Some(derived(s.arg(4) - 1, &x, &y)).filter(|u| u.bits() <= 40 * 32)
    }
    fn new_nat(&mut self, s: &Step) -> Check {
        if s.arg(0) % 24 == 23 {
            self.push_nat(Nat::default(), vec![]);
            return Ok(());
        }
        let l = match self.related(0, s) {
            Some(u) => u.lib_limbs(),
            None => super::random::limbs(s.arg(0), s.arg(1) % 41, s.arg(2)),
        };
        let u = U::from_limbs(&l);
        let n = match s.arg(3) % 6 {
            0 => Nat::from(&l[..]),
            1 => {
                let mut b: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
                if s.arg(3) % 12 >= 6 {
                    b.push(0);
                }
                must("from bytes", || Nat::from(b))?
            }
            2 if l.len() <= 8 => {
                let t = format!("0x{}", u.hex().trim_start_matches("0x"));
                must("parse hex", || Nat::from_str(&t))?.map_err(|_| Violation { class: "wrong-result".into(), detail: format!("{} is refused", t) })?
            }
            3 => {
                // spare capacity behind the value
                let mut v = Vec::with_capacity(l.len() + 7);
                v.extend_from_slice(&l);
                v.push(0);
                Nat::from(v)
            }
            _ => Nat::from(l.clone()),
        };
        let got = nat_limbs(&n);
        ensure!(got == u.lib_limbs(), "wrong-result", "constructing {} gives {}", u.hex(), show(&got));
        self.push_nat(n, u.lib_limbs());
        Ok(())
    }
    fn new_int(&mut self, s: &Step) {
        if s.arg(0) % 40 == 39 {
            self.push_int(BigInt::from(Vec::<u32>::new()), false, vec![]);
            return;
        }
        let u = match self.related(1, s) {
            Some(u) => u,
            None => U::from_limbs(&super::random::limbs(s.arg(0), s.arg(1) % 41, s.arg(2))),
        };
        let mut n = BigInt::from(u.lib_limbs());
        let neg = s.arg(3) & 1 == 1 && !u.is_zero();
        if neg {
            n.set_negative();
        }
        self.push_int(n, neg, u.lib_limbs());
    }
    fn new_rat(&mut self, s: &Step) {
        let mut r = Prng::new(s.arg(2));
        let q = match s.arg(0) % 8 {
            5 => {
                let t = match r.below(5) {
                    0 => format!("{}/{}", r.below(4000) as i64 - 2000, r.below(60) as i64 - 20),
                    1 => format!("{}", r.u64() as i64),
                    2 => format!("-0x{:x}/0x{:x}", r.u64(), r.u64() | 1),
                    3 => format!("{:?}", r.u32() as f64 / 64.0 - 1e7),
                    _ => format!("{}/{}", r.u64(), 1u64 << r.below(60)),
                };
                guard(|| Rat::from_str(&t)).ok().and_then(|x| x.ok())
            }
            6 => guard(|| Rat::from(f64::from_bits(0x3ff0_0000_0000_0000 ^ r.u64() >> 9 ^ r.below(64) << 52))).ok(),
            7 => guard(|| Rat::from((r.u32() as f32 - 2e9) / (1u32 << r.below(31)) as f32)).ok(),
            0 => Rat::from_frac(r.below(2000) as isize - 1000, 1 + r.below(500) as isize).ok(),
            1 => Rat::from_frac((r.u32() as isize) - (1 << 31), 1 + r.u32() as isize).ok(),
            2 => {
                let (a, b) = (super::random::limbs(r.below(12), 1 + r.below(4), r.u64()), super::random::limbs(r.below(12), 1 + r.below(4), r.u64()));
                let (mut a, b) = (BigInt::from(a), BigInt::from(b));
                if r.chance(1, 2) {
                    a = -a;
                }
                guard(|| Rat::from_frac_bigint(&a, &b)).ok().and_then(|x| x.ok())
            }
            3 => guard(|| Rat::from_f64(r.u32() as f64 / 1024.0 - 1e6)).ok(),
            _ => Some(Rat::from(r.u32())),
        };
        if let Some(q) = q {
            self.push_rat(q);
        }
    }
    fn new_float(&mut self, s: &Step) {
        let mut r = Prng::new(s.arg(2));
        let f = guard(|| {
            let mut f = match s.arg(0) % 11 {
                6 => Float::get_inf(r.chance(1, 2)),
                7 => Float::from(f64::from_bits(r.u64() & !(0x7ff << 52) | (*r.pick(&[1, 2, 3, 900, 1000, 1022, 1023, 1024, 1100, 2000, 2045, 2046])) << 52)),
                8 => {
                    let t = match r.below(5) {
                        0 => format!("{}", r.u64() as i64),
                        1 => format!("{:?}", r.u32() as f64 / 256.0 - 1e6),
                        2 => format!("{}.{}", r.below(1 << 40), r.below(1 << 40)),
                        3 => format!("{}.{}e{}", r.below(100), r.below(1000), r.below(60) as i64 - 30),
                        _ => format!("-{}E{}", r.u64(), r.below(40)),
                    };
                    match Float::from_str(&t) {
                        Ok(f) => f,
                        Err(_) => Float::from(2u32),
                    }
                }
                9 => {
                    // near the ends of what machine floats can hold
                    let mut f = Float::from(r.u64() | 1);
                    let e = *r.pick(&[-1200isize, -1100, -1075, -1074, -1023, -1022, -1021, -160, -150, -149, -127, -126, 127, 128, 129, 1023, 1024, 1025]);
                    f.set_mant_exp(f.deep_clone(), e - 64 + r.below(3) as isize);
                    if r.chance(1, 2) {
                        f = -f;
                    }
                    f
                }
                10 => Float::from(f32::from_bits(r.u32() & 0xbfff_ffff) as f64),
                0 => Float::from(r.u64()),
                1 => Float::from((r.u32() as f64 - 2e9) / 4096.0),
                2 => Float::from(Nat::from(super::random::limbs(r.below(12), 1 + r.below(8), r.u64()))),
                3 => Float::from(1.0 / (1.0 + r.below(1000) as f64)),
                4 => match Rat::from_frac(r.below(2000) as isize - 1000, 1 + r.below(500) as isize) {
                    Ok(q) => Float::from(q),
                    Err(_) => Float::from(3u32),
                },
                _ => Float::from(r.below(5)),
            };
            if s.arg(1) % 3 == 0 {
                f.set_mode(mode_of(s.arg(1) / 3));
            }
            if s.arg(1) % 64 == 2 {
                f.set_precision(0);
            } else if s.arg(1) % 4 == 1 {
                f.set_precision(1 + (s.arg(1) / 4 % 160) as usize);
            }
            f
        });
        if let Ok(f) = f {
            self.push_float(f);
        }
    }
    fn any(&self, s: &Step, ai: usize) -> Option<usize> {
        // an even choice of kind first, so that rare kinds are met
        let ks: Vec<Vec<usize>> = (0..4).map(|k| self.kind(k)).filter(|v| !v.is_empty()).collect();
        if ks.is_empty() {
            return None;
        }
        let v = &ks[s.idx(ai, ks.len())];
        Some(v[s.idx(ai + 1, v.len())])
    }
    fn share(&mut self, s: &Step, deep: bool) -> Check {
        let Some(i) = self.any(s, 0) else { return Ok(()) };
        if !deep && s.arg(3) % 16 == 0 {
            let (n, k) = (s.arg(5), 4 + (s.arg(2) as usize % 64) * [1, 1, 4, 18][s.idx(6, 4)]);
            let one = match (&self.hs[i].v, &self.hs[i].m) {
                (V::N(n), M::N(c)) => Some((*c, n.clone())),
                (V::I(n), M::I(c, _)) => Some((*c, int_nat(n).clone())),
                (V::R(r), M::R(a, _, b)) => Some(if n & 1 == 0 { (*a, int_nat(r.numerator()).clone()) } else { (*b, int_nat(r.denominator()).clone()) }),
                _ => None,
            };
            if let Some((c, one)) = one {
                self.crowd = (c, vec![one; k]);
            }
        }
        match (&self.hs[i].v, self.hs[i].m.clone()) {
            (V::N(n), M::N(c)) => {
                if deep {
                    let (n, l) = (n.deep_clone(), self.get(c).clone());
                    self.push_nat(n, l);
                } else {
                    let n = n.clone();
                    self.push(V::N(n), M::N(c));
                }
            }
            (V::I(n), M::I(c, neg)) => {
                if deep {
                    let (n, l) = (n.deep_clone(), self.get(c).clone());
                    self.push_int(n, neg, l);
                } else {
                    let n = n.clone();
                    self.push(V::I(n), M::I(c, neg));
                }
            }
            (V::R(r), M::R(a, neg, b)) => {
                let (d, r) = (r.deep_clone(), r.clone());
                if deep {
                    let (la, lb) = (self.get(a).clone(), self.get(b).clone());
                    let (ca, cb) = (self.cell(la), self.cell(lb));
                    self.push(V::R(d), M::R(ca, neg, cb));
                } else {
                    self.push(V::R(r), M::R(a, neg, b));
                }
            }
            (V::F(f), M::F(fam, fp)) => {
                let f = if deep { f.deep_clone() } else { f.clone() };
                let fam = if deep {
                    self.next += 1;
                    self.next - 1
                } else {
                    fam
                };
                self.push_float_fam(f, fam);
                if let M::F(_, q) = &self.hs.last().unwrap().m {
                    ensure!(*q == fp, "wrong-result", "a copy of a float reads {:?}, the original {:?}", q, fp);
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn view(&mut self, s: &Step) {
        let v: Vec<usize> = self.kind(1).into_iter().chain(self.kind(2)).collect();
        if v.is_empty() {
            return;
        }
        let i = v[s.idx(0, v.len())];
        match (&self.hs[i].v, self.hs[i].m.clone()) {
            (V::I(n), M::I(c, _)) => {
                let n = int_nat(n).clone();
                self.push(V::N(n), M::N(c));
            }
            (V::R(r), M::R(a, neg, b)) => {
                if s.arg(1) & 1 == 0 {
                    let n = r.numerator().clone();
                    self.push(V::I(n), M::I(a, neg));
                } else {
                    // the library ignores the sign a denominator carries
                    let n = r.denominator().clone();
                    let neg = n.is_negative();
                    self.push(V::I(n), M::I(b, neg));
                }
            }
            _ => {}
        }
    }
    fn convert(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(i) = self.any(s, 0) else { return Ok(()) };
        let t = s.arg(2);
        match (&self.hs[i].v, self.hs[i].m.clone()) {
            (V::N(n), M::N(c)) => {
                let (n, l) = (n.clone(), self.get(c).clone());
                if l.is_empty() || l.len() > 12 {
                    return Ok(());
                }
                match t % 3 {
                    0 => {
                        let r = must("BigInt::from", || BigInt::from(n))?;
                        self.res_int(cx, "BigInt::from", r, val(&l).map(I::pos), s.arg(5) & 1 == 1)?;
                    }
                    1 => {
                        let r = must("Rat::from", || Rat::from(n))?;
                        ensure!(rat_read(&r) == (false, false, l.clone(), vec![1]), "wrong-result", "rational from {} reads {:?}", show(&l), rat_read(&r));
                        self.push_rat(r);
                    }
                    _ => {
                        if let Ok(f) = guard(|| Float::from(n)) {
                            self.push_float(f);
                        }
                    }
                }
            }
            (V::I(n), M::I(c, neg)) => {
                let (n, l) = (n.clone(), self.get(c).clone());
                if l.is_empty() || l.len() > 12 {
                    return Ok(());
                }
                if t % 2 == 0 {
                    let r = must("Rat::from", || Rat::from(n))?;
                    ensure!(rat_read(&r) == (false, neg, l.clone(), vec![1]), "wrong-result", "rational from {} reads {:?}", showi(neg, &l), rat_read(&r));
                    self.push_rat(r);
                } else if let Ok(f) = guard(|| Float::from(n)) {
                    self.push_float(f);
                }
            }
            (V::R(r), M::R(..)) => {
                let (r, d) = (r.clone(), r.deep_clone());
                if !self.rat_small(i) {
                    return Ok(());
                }
                let (p, q) = (guard(|| Float::from(r)), guard(|| Float::from(d)));
                ensure!(p.is_ok() == q.is_ok(), "shared-differs", "conversion of a rational to a float panics for only one of shared and independent operands");
                if let (Ok(p), Ok(q)) = (p, q) {
                    ensure!(fingerprint(&p, None, true) == fingerprint(&q, None, true), "shared-differs", "a rational converts to {:.20e} shared and {:.20e} independent", p, q);
                    self.push_float(p);
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn compare(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let k = (s.arg(0) % 4) as u8;
        let Some(a) = self.pick(k, s, 1) else { return Ok(()) };
        let b = self.pick2(k, s, 2, a, s.arg(6));
        match (&self.hs[a].v, &self.hs[b].v) {
            (V::N(x), V::N(y)) => {
                let (p, q) = (self.nat(a).1, self.nat(b).1);
                let want = match (&p, &q) {
                    (Some(p), Some(q)) => Some(p.cmp(q)),
                    _ => None,
                };
                let got = must("nat cmp", || (x.partial_cmp(y), x == y))?;
                cx.obs(got.0.map_or(7, |o| o as i32 as u64));
                ensure!(got.0 == want && got.1 == (want == Some(std::cmp::Ordering::Equal)), "wrong-result", "comparison of {:?} and {:?} gives {:?}", p.map(|u| u.hex()), q.map(|u| u.hex()), got);
            }
            (V::I(x), V::I(y)) => {
                let (p, q) = (self.int(a).1, self.int(b).1);
                let want = match (&p, &q) {
                    (Some(p), Some(q)) => Some(p.cmp(q)),
                    _ => None,
                };
                let got = must("int cmp", || (x.partial_cmp(y), x == y))?;
                cx.obs(got.0.map_or(7, |o| o as i32 as u64));
                ensure!(got.0 == want && got.1 == (want == Some(std::cmp::Ordering::Equal)), "wrong-result", "comparison of {:?} and {:?} gives {:?}", p.map(|u| u.hex()), q.map(|u| u.hex()), got);
            }
            (V::R(x), V::R(y)) if self.rat_small(a) && self.rat_small(b) => {
                to_machine(x, cx)?;
                if s.arg(5) % 4 == 0 {
                    // the same at the ends of what machine floats hold
                    let k = *s_pick(&[1022usize, 1074, 1000, 149, 126, 127, 1023, 60], s.arg(3)) + (s.arg(3) / 8 % 64) as usize;
                    let (n, d) = (x.numerator().deep_clone(), x.denominator().deep_clone());
                    if !x.is_nan() && !d.is_nan() {
                        let q = if s.arg(5) & 4 == 0 { guard(|| Rat::from_frac_bigint(&n, &(d << k)).ok()) } else { guard(|| Rat::from_frac_bigint(&(n << k), &d).ok()) };
                        if let Ok(Some(q)) = q {
                            to_machine(&q, cx)?;
                        }
                    }
                }
                let (p, q) = (x.deep_clone(), y.deep_clone());
                let f = |p: &Rat, q: &Rat| guard(|| (p.partial_cmp(q).map(|o| o as i32), p == q, p.signnum(), p.is_integer(), p.to_f64().0.to_bits(), p.to_f32().0.to_bits())).map_err(|_| ());
                let (g, w) = (f(x, y), f(&p, &q));
                cx.obs(text_hash(&format!("{:?}", g)));
                ensure!(g == w, "shared-differs", "rational comparison gives {:?} on shared and {:?} on independent operands", g, w);
            }
            (V::F(x), V::F(y)) => {
                let (p, q) = (x.deep_clone(), y.deep_clone());
                let f = |p: &Float, q: &Float| {
                    guard(|| (p.partial_cmp(q).map(|o| o as i32), p == q, p.is_integer(), p.to_f64().0.to_bits(), p.to_f32().0.to_bits(), p.truncate_to_u64().map(|x| x.0), p.truncate_to_i64().map(|x| x.0)))
                        .map_err(|_| ())
                };
                let (g, w) = (f(x, y), f(&p, &q));
                cx.obs(text_hash(&format!("{:?}", g)));
                ensure!(g == w, "shared-differs", "float comparison gives {:?} on shared and {:?} on independent operands", g, w);
            }
            _ => {}
        }
        Ok(())
    }
    fn format(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(i) = self.any(s, 0) else { return Ok(()) };
        let fm = s.arg(2) % NFMT;
        let v = &self.hs[i].v;
        if size(v) > if s.arg(3) % 4 == 0 { 80 } else { 12 } {
            return Ok(());
        }
        let got = guard(|| render(v, fm)).map_err(|_| ());
        if let Ok(t) = &got {
            cx.obs_bytes(t.as_bytes());
        }
        let d = deep(v);
        let want = guard(|| render(&d, fm)).map_err(|_| ());
        ensure!(got == want, "shared-differs", "format {} gives {:?} for a shared and {:?} for an independent number", fm, got, want);
        // naturals and integers: the digits and the sign are known
        let u = match &self.hs[i].m {
            M::N(c) => val(self.get(*c)).map(|u| (u, false)),
            M::I(c, neg) => val(self.get(*c)).map(|u| (u, *neg)),
            _ => None,
        };
        if let (Some((u, neg)), Ok(t)) = (u, &got) {
            ensure!(denotes(t, fm, &u, neg), "wrong-result", "format {} of {}{} gives {:?}", fm, if neg { "-" } else { "" }, u.hex(), t);
        }
        if let (V::R(r), Ok(t)) = (&self.hs[i].v, &got) {
            let (nan, neg, n, d) = rat_read(r);
            if fm <= 10 && !nan && !n.is_empty() && !d.is_empty() && !r.denominator().is_negative() {
                let ok = t.split_once('/').map_or(false, |(x, y)| denotes(x, fm, &U::from_limbs(&n), neg) && denotes(y, fm, &U::from_limbs(&d), false));
                ensure!(ok, "wrong-result", "format {} of {}/{} gives {:?}", fm, showi(neg, &n), show(&d), t);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ abandoned calls
    /// division by zero in every form; nothing may change
    fn crash_arith(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let k = s.arg(0) % 18;
        let kind: u8 = match k {
            0..=7 => 0,
            8..=15 => 1,
            _ => 2,
        };
        let Some(a) = self.pick(kind, s, 1) else { return Ok(()) };
        // a zero of its own, a live zero handle, or a zero that shares with the dividend
        let zeros: Vec<usize> = self.kind(kind).into_iter().filter(|&i| self.get(self.cell_of(i)) == &[0]).collect();
        let live = if zeros.is_empty() { None } else { Some(zeros[s.idx(2, zeros.len())]) };
        let (inp, dead);
        let r = match kind {
            0 => {
                let z = live.filter(|_| s.arg(3) & 1 == 0).map_or_else(|| Nat::from(0u32), |i| self.nat(i).0);
                let nan = self.nat(a).1.is_none();
                inp = k >= 4;
                let x = self.nat(a).0;
                let V::N(m) = &mut self.hs[a].v else { unreachable!() };
                let r = guard(|| {
                    match k {
                        0 => drop(x / z),
                        1 => drop(x % z),
                        2 => drop(x / 0u32),
                        3 => drop(x % 0u32),
                        4 => *m /= z,
                        5 => *m %= z,
                        6 => *m /= 0u32,
                        _ => *m %= 0u32,
                    };
                });
                dead = inp && (nan || r.is_ok());
                r
            }
            1 => {
                let z = live.filter(|_| s.arg(3) & 1 == 0).map_or_else(|| BigInt::from(0u32), |i| self.int(i).0);
                let nan = self.int(a).1.is_none();
                inp = k >= 12;
                let x = self.int(a).0;
                let V::I(m) = &mut self.hs[a].v else { unreachable!() };
                let r = guard(|| {
                    match k {
                        8 => drop(x / z),
                        9 => drop(x % z),
                        10 => drop(x.div_euclid(z)),
                        11 => drop(x.rem_euclid(z)),
                        12 => *m /= z,
                        13 => *m %= z,
                        14 => m.div_euclid_assign(z),
                        _ => m.rem_euclid_assign(z),
                    };
                });
                dead = inp && (nan || r.is_ok());
                r
            }
            _ => {
                if !self.rat_small(a) {
                    return Ok(());
                }
                let z = live.filter(|_| s.arg(3) & 1 == 0).map_or_else(|| Rat::from(0u32), |i| self.rat(i));
                inp = k == 17;
                let x = self.rat(a);
                let V::R(m) = &mut self.hs[a].v else { unreachable!() };
                let r = guard(|| {
                    if k == 16 {
                        drop(x / z)
                    } else {
                        *m /= z
                    }
                });
                dead = inp && r.is_ok();
                r
            }
        };
        match r {
            Err(_) => {
                cx.fault("division_by_zero_panic");
                if inp {
                    cx.probe("inplace_division_abandoned");
                }
                if self.shared(a) {
                    cx.probe("abandoned_on_shared_storage");
                }
            }
            Ok(()) => {
                cx.probe("division_by_zero_without_panic");
                if dead {
                    let c = self.cell_of(a);
                    self.release(c);
                }
            }
        }
        Ok(())
    }
    /// a caller's source that panics part way through a consumer
    fn crash_source(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let mut f = Faults::from_args(&[s.arg(4), s.arg(4) >> 7 & 3, 0, 0, s.arg(4), 40]);
        f.panic_at = 1 + s.arg(3) % 60;
        let mut g = SimRng::new(vec![], s.arg(2), f, 20000);
        let before = g.clone();
        let k = s.arg(0) % 5;
        let r = match k {
            0 => {
                let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
                let (x, v) = self.nat(a);
                if v.as_ref().map_or(true, |u| u.is_zero()) {
                    return Ok(());
                }
                guard(|| x.random(&mut g)).map(|n| Some(V::N(n)))
            }
            1 => {
                let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
                let (x, v) = self.int(a);
                if v.as_ref().map_or(true, |u| u.m.is_zero()) {
                    return Ok(());
                }
                guard(|| x.random(&mut g)).map(|n| Some(V::I(n)))
            }
            2 => guard(|| Nat::generate_prime(2 + (s.arg(1) % 70) as usize, 2, &mut g)).map(|r| r.ok().map(V::N)),
            3 => {
                let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
                let (x, v) = self.nat(a);
                if v.as_ref().map_or(true, |u| u.bits() > 130) {
                    return Ok(());
                }
                guard(|| x.probably_prime_test(3, &mut g)).map(|_| None)
            }
            _ => {
                // an iterator over the source
                let n = 1 + s.arg(1) % 50;
                let mut got = vec![];
                let r = guard(|| {
                    let mut it = g.iter_mut();
                    for _ in 0..n {
                        match it.next() {
                            Some(w) => got.push(w),
                            None => it.clear_error(),
                        }
                    }
                });
                for (i, w) in got.iter().enumerate() {
                    ensure!(*w == before.word(i as u64), "words-lost", "word {} of an iterated source is {:#x} instead of {:#x}", i, w, before.word(i as u64));
                }
                ensure!(g.words == got.len() as u64, "words-lost", "the source delivered {} words, {} arrived", g.words, got.len());
                r.map(|_| None)
            }
        };
        match r {
            Err(Caught::Injected) => {
                cx.fault("source_panic");
                // the source carries on with its next word
                let at = g.words;
                let mut f = g.clone();
                f.faults = Faults::none();
                let w = must("source after the panic", || f.iter_mut().next())?;
                ensure!(w == Some(before.word(at)), "words-lost", "after the panic the source continues with {:?}", w);
            }
            Err(c @ Caught::Budget(_)) => return violation("no-progress", c.describe()),
            Err(c) => return violation("panic:source", format!("kind {}: {}", k, c.describe())),
            Ok(v) => match v {
                Some(V::N(n)) => {
                    let l = nat_limbs(&n);
                    self.push_nat(n, l);
                }
                Some(V::I(n)) => {
                    let (l, neg) = (int_limbs(&n), n.is_negative());
                    self.push_int(n, neg, l);
                }
                _ => {}
            },
        }
        Ok(())
    }
    /// a caller's sink that panics at some byte of the text
    fn crash_sink(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(i) = self.any(s, 0) else { return Ok(()) };
        let v = &self.hs[i].v;
        if size(v) > 12 {
            return Ok(());
        }
        let fm = s.arg(2) % NFMT;
        let Ok(full) = guard(|| render(v, fm)) else { return Ok(()) };
        let at = s.idx(3, full.len() + 1);
        let mut w = PanicSink { left: at, text: String::new() };
        let r = guard(|| render_to(v, fm, &mut w));
        if let Err(Caught::Injected) = r {
            cx.fault("sink_panic");
        }
        ensure!(full.starts_with(&w.text), "not-a-prefix", "the sink received {:?} of {:?}", w.text, full);
        let again = guard(|| render(&self.hs[i].v, fm)).map_err(|_| ());
        ensure!(again.as_ref() == Ok(&full), "handle-disturbed", "after a sink panic the text is {:?} instead of {:?}", again, full);
        Ok(())
    }
    /// a seed source that panics inside the reset of a generator
    fn crash_generator(&mut self, s: &Step, cx: &mut Cx) -> Check {
        if self.gens.is_empty() {
            return Ok(());
        }
        let i = s.idx(0, self.gens.len());
        let (g, twin) = &mut self.gens[i];
        let arg = if s.arg(1) & 1 == 0 { SeedArg::Panic } else { SeedArg::Err(s.arg(2), 3) };
        match guard(|| g.reset(arg)) {
            Err(Caught::Injected) => cx.fault("seed_panic"),
            Ok((Err(_), _)) => cx.fault("seed_error"),
            Ok((Ok(()), n)) => ensure!(false, "reset-succeeded", "a reset succeeded although the seed source failed ({} calls)", n),
            Err(c) => return violation("panic:reset", c.describe()),
        }
        for k in 0..1 + s.arg(3) % 40 {
            let (a, b) = (must("draw", || g.draw())?, must("draw", || twin.draw())?);
            ensure!(a.as_ref().ok() == b.as_ref().ok() && a.is_ok(), "generator-disturbed", "draw {} after an abandoned reset differs from the generator that was not reset", k);
        }
        Ok(())
    }
    fn generator(&mut self, s: &Step, cx: &mut Cx) -> Check {
        if self.gens.is_empty() || s.arg(0) % 4 == 0 {
            let (g, _, _) = must("generator", || engines::preset(s.arg(1) % 8, SeedArg::Ok(1 + (s.arg(2) & 0xfffff))))?;
            let (t, _, _) = must("generator", || engines::preset(s.arg(1) % 8, SeedArg::Ok(1 + (s.arg(2) & 0xfffff))))?;
            if let (Ok(g), Ok(t)) = (g, t) {
                self.gens.push((g, t));
            }
            if self.gens.len() > 3 {
                self.gens.remove(0);
            }
            return Ok(());
        }
        let i = s.idx(1, self.gens.len());
        let n = 1 + (s.arg(2) % 700) as usize;
        let (g, t) = &mut self.gens[i];
        let (a, b) = (must("iterate", || g.iterate(n))?, must("iterate", || t.iterate(n))?);
        a.iter().for_each(|x| cx.obs(*x));
        ensure!(a == b, "generator-disturbed", "two generators with the same history differ");
        Ok(())
    }

    // ------------------------------------------------------------------ sizes of the recursive kernels
    /// operands of up to 600 words, made for the occasion and dropped afterwards
    fn big(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let mut r = Prng::new(s.arg(4));
        let k = s.arg(0) % 15;
        if k == 14 {
            return deep_numbers(s, cx);
        }
        let size = |r: &mut Prng, cap: u64| -> usize {
            let n = match r.below(8) {
                6 | 7 => r.range(1, 36),
                0 => r.range(36, 48),
                1 => r.range(76, 90),
                2 => r.range(18, 24),
                3 => r.range(150, 200),
                4 => r.range(255, 330),
                _ => r.range(1, 600),
            };
            (n.min(cap)).max(1) as usize
        };
        let cap = match k {
            4 | 5 => 120,
            6 => 30,
            7 => 24,
            8 => 50,
            _ => 600,
        };
        let mut n = size(&mut r, cap);
        let mut m = if r.chance(1, 2) { n } else { size(&mut r, cap) };
        if r.chance(1, 6) {
            // one is next to a multiple of the other
            m = r.range(40, 56).min(cap) as usize;
            n = ((m as u64 * r.range(1, 12) + r.below(3)).saturating_sub(1)).min(cap).max(1) as usize;
        }
        let (mut p, mut q) = (runs(r.u64(), n), runs(r.u64(), m));
        if r.chance(1, 8) {
            // the highest word is nearly nothing
            let top = |u: &U, w: u32| {
                let mut l = u.lib_limbs();
                *l.last_mut().unwrap() = w;
                U::from_limbs(&l)
            };
            p = top(&p, 1 + r.below(2) as u32);
            q = top(&q, *r.pick(&[1, 2, 0x8000_0000]));
        }
        if r.chance(1, 2) && k != 4 && k != 5 {
            std::mem::swap(&mut p, &mut q);
            std::mem::swap(&mut n, &mut m);
        }
        let (x, y) = (Nat::from(p.lib_limbs()), Nat::from(q.lib_limbs()));
        let (sx, sy) = (r.chance(1, 2), r.chance(1, 2));
        let (ip, iq) = (I::new(sx, p.clone()), I::new(sy, q.clone()));
        let mk = |u: &U, neg: bool| {
            let mut n = BigInt::from(u.lib_limbs());
            if neg {
                n.set_negative();
            }
            n
        };
        let (ix, iy) = (mk(&p, sx), mk(&q, sy));
        let check = |cx: &mut Cx, what: &str, got: &Nat, want: &U| -> Check {
            let (g, w) = (nat_limbs(got), want.lib_limbs());
            cx.obs_limbs(&g);
            ensure!(g == w, "wrong-result", "{} of numbers of {} and {} words (seed {:#x}) differs from the exact value in word {}", what, n, m, s.arg(4), g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len())));
            Ok(())
        };
        let checki = |cx: &mut Cx, what: &str, got: &BigInt, want: &I| -> Check {
            check(cx, what, int_nat(got), &want.m)?;
            ensure!(got.is_negative() == want.neg, "wrong-result", "{} of numbers of {} and {} words (seed {:#x}) has the wrong sign", what, n, m, s.arg(4));
            Ok(())
        };
        match k {
            0 => check(cx, "product", &must("mul", || x.clone() * y.clone())?, &p.mul(&q))?,
            1 | 9 => check(cx, "Karatsuba product", &must("mul_karatsuba", || x.mul_karatsuba(&y))?, &p.mul(&q))?,
            2 | 10 => check(cx, "square", &must("sqr", || x.sqr())?, &p.mul(&p))?,
            3 => {
                checki(cx, "integer product", &must("int mul", || ix.clone() * iy.clone())?, &ip.mul(&iq))?;
                checki(cx, "integer square", &must("int sqr", || ix.sqr())?, &I::pos(p.mul(&p)))?
            }
            4 => {
                // a dividend that is a little more than a multiple of the divisor
                let d = p.mul(&q).add(&runs(r.u64(), 1 + r.below(m as u64) as usize));
                if p.bits() > 1500 {
                    return Ok(());
                }
                let (dq, dr) = d.divrem(&q);
                let dn = Nat::from(d.lib_limbs());
                check(cx, "quotient", &must("div", || dn.clone() / y.clone())?, &dq)?;
                check(cx, "remainder", &must("rem", || dn.clone() % y.clone())?, &dr)?;
                checki(cx, "integer quotient", &must("int div", || mk(&d, sx) / iy.clone())?, &I::new(sx, d.clone()).div(&iq))?;
                checki(cx, "integer remainder", &must("int rem", || mk(&d, sx) % iy.clone())?, &I::new(sx, d.clone()).rem(&iq))?
            }
            5 => {
                let w = r.spicy32() | (r.chance(1, 4) as u32);
                let wu = U::from_u64(w as u64);
                check(cx, "product with a word", &must("mul word", || x.clone() * w)?, &p.mul(&wu))?;
                check(cx, "sum with a word", &must("add word", || x.clone() + w)?, &p.add(&wu))?;
                check(cx, "difference with a word", &must("sub word", || x.clone() - w)?, &p.absdiff(&wu))?;
                if w != 0 {
                    check(cx, "quotient by a word", &must("div word", || x.clone() / w)?, &p.div(&wu))?;
                    check(cx, "remainder by a word", &must("rem word", || x.clone() % w)?, &p.rem(&wu))?
                }
            }
            6 => {
                // modular power beyond the sizes of the live numbers: odd and even moduli
                let e = runs(r.u64(), 1 + r.below(3) as usize);
                let md = if r.chance(1, 2) { q.or(&U::from_u64(1)) } else { q.shr(1).shl(1) };
                if md.is_zero() {
                    return Ok(());
                }
                let want = p.powmod(&e, &md);
                let (en, mn) = (Nat::from(e.lib_limbs()), Nat::from(md.lib_limbs()));
                if p.bits() > md.bits() + 300 {
                    return Ok(());
                }
                check(cx, "modular power", &must("exp", || x.exp(&en, &mn))?, &want)?;
                if md.bits() < 200 {
                    check(cx, "modular power (pow_mod)", &must("pow_mod", || x.pow_mod(en, mn))?, &want)?
                }
            }
            7 => {
                let e = r.below(24) as u32;
                check(cx, "power", &must("pow", || x.pow(Nat::from(e)))?, &p.pow(e))?
            }
            8 => {
                let t = if r.chance(1, 2) && n < 25 { p.mul(&p) } else { p.clone() };
                let t = if r.chance(1, 2) && t.bits() > 1 { t.sub(&U::from_u64(1)) } else { t };
                if t.bits() > 1000 {
                    return Ok(());
                }
                check(cx, "square root", &must("sqrt", || Nat::from(t.lib_limbs()).sqrt())?, &t.isqrt())?
            }
            11 => {
                check(cx, "sum", &must("add", || x.clone() + y.clone())?, &p.add(&q))?;
                check(cx, "difference", &must("sub", || x.clone() - y.clone())?, &p.absdiff(&q))?;
                check(cx, "union", &must("or", || x.clone() | y.clone())?, &p.or(&q))?;
                check(cx, "intersection", &must("and", || x.clone() & y.clone())?, &p.and(&q))?;
                check(cx, "symmetric difference", &must("xor", || x.clone() ^ y.clone())?, &p.xor(&q))?;
                let sh = match r.below(3) {
                    0 => 32 * r.below(n as u64 + 2) as usize,
                    1 => r.below(32) as usize,
                    _ => r.below(32 * n as u64 + 40) as usize,
                };
                check(cx, "left shift", &must("shl", || x.clone() << sh)?, &p.shl(sh))?;
                check(cx, "right shift", &must("shr", || x.clone() >> sh)?, &p.shr(sh))?
            }
            12 => {
                checki(cx, "integer sum", &must("int add", || ix.clone() + iy.clone())?, &ip.add(&iq))?;
                checki(cx, "integer difference", &must("int sub", || ix.clone() - iy.clone())?, &ip.sub(&iq))?;
                checki(cx, "integer union", &must("int or", || ix.clone() | iy.clone())?, &ip.or(&iq))?;
                checki(cx, "integer intersection", &must("int and", || ix.clone() & iy.clone())?, &ip.and(&iq))?;
                checki(cx, "integer symmetric difference", &must("int xor", || ix.clone() ^ iy.clone())?, &ip.xor(&iq))?
            }
            _ => {
                // products of ranges and binomial coefficients
                let a = r.below(40) as i64 - 20 + if r.chance(1, 3) { *r.pick(&[0, 1 << 31, 1 << 32, -(1 << 32), 1 << 40, 0xffff_fff0, i32::MAX as i64]) } else { 0 };
                let b = a + r.below(30) as i64 - 3;
                let mut want = I::from_i64(1);
                for v in a..=b {
                    want = want.mul(&I::from_i64(v));
                }
                let got = must("mul_range", || BigInt::mul_range(a, b))?;
                let (gl, gn) = (int_limbs(&got), got.is_negative());
                ensure!(gl == want.m.lib_limbs() && gn == want.neg, "wrong-result", "the product of {}..={} is {}", a, b, showi(gn, &gl));
                let (n, k) = (r.below(120) as i64, r.below(40) as i64);
                let (mut num, mut den) = (U::from_u64(1), U::from_u64(1));
                for i in 0..k {
                    num = num.mul(&U::from_u64((n - i).max(0) as u64));
                    den = den.mul(&U::from_u64(i as u64 + 1));
                }
                let want = if k > n { U::zero() } else { num.div(&den) };
                let got = must("binomial", || BigInt::binomial(n, k))?;
                let gl = int_limbs(&got);
                ensure!(gl == want.lib_limbs() && !got.is_negative(), "wrong-result", "binomial({}, {}) is {}", n, k, showi(got.is_negative(), &gl))
            }
        }
        if n.max(m) > 80 {
            cx.probe("operands_beyond_80_words");
        }
        // the operands themselves
        for (what, v, u) in [("left", nat_limbs(&x), &p), ("right", nat_limbs(&y), &q), ("left integer", int_limbs(&ix), &p), ("right integer", int_limbs(&iy), &q)] {
            ensure!(v == u.lib_limbs(), "handle-disturbed", "operation {} on numbers of {} and {} words (seed {:#x}) changed its {} operand", k, n, m, s.arg(4), what);
        }
        ensure!(ix.is_negative() == ip.neg && iy.is_negative() == iq.neg, "handle-disturbed", "operation {} on numbers of {} and {} words changed the sign of an operand", k, n, m);
        Ok(())
    }

    // ------------------------------------------------------------------ machine integers, bytes, text
    fn machine(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let mut r = Prng::new(s.arg(4));
        let (k, poke) = (s.arg(0) % 10, s.arg(5) & 1 != 0);
        let raw = {
            let w = r.range(1, 4) as usize;
            let v: Vec<u32> = (0..4).map(|i| if i < w { r.spicy32() } else { 0 }).collect();
            v.iter().rev().fold(0u128, |a, &x| a << 32 | x as u128)
        };
        macro_rules! nat_from {
            ($($t: ty),+) => {{
                $(
                    let v = raw as $t;
                    let n = must("Nat::from", || Nat::from(v))?;
                    let g = nat_limbs(&n);
                    ensure!(g == U::from_u128(v as u128).lib_limbs(), "wrong-result", "Nat::from({} as {}) is {}", v, stringify!($t), show(&g));
                    let b = must("BigInt::from", || BigInt::from(v))?;
                    ensure!(int_limbs(&b) == g && !b.is_negative(), "wrong-result", "BigInt::from({} as {}) is {}", v, stringify!($t), showi(b.is_negative(), &int_limbs(&b)));
                )+
            }};
        }
        macro_rules! int_from {
            ($($t: ty),+) => {{
                $(
                    let v = raw as $t;
                    let b = must("BigInt::from", || BigInt::from(v))?;
                    let g = int_limbs(&b);
                    ensure!(g == U::from_u128((v as i128).unsigned_abs()).lib_limbs() && b.is_negative() == (v < 0), "wrong-result", "BigInt::from({} as {}) is {}", v, stringify!($t), showi(b.is_negative(), &g));
                )+
            }};
        }
        macro_rules! nat_cmp {
            ($x: expr, $u: expr, $v: expr, $($t: ty),+) => {{
                $(
                    let v = $v as $t;
                    let want = $u.as_ref().map(|u| u.cmp(&U::from_u128(v as u128)));
                    let got = must("nat cmp word", || ($x.partial_cmp(&v), *$x == v))?;
                    cx.obs(got.0.map_or(7, |o| o as i32 as u64));
                    ensure!(got.0 == want && got.1 == (want == Some(std::cmp::Ordering::Equal)), "wrong-result", "comparison of {:?} with {} as {} gives {:?}", $u.as_ref().map(|u| u.hex()), v, stringify!($t), got);
                )+
            }};
        }
        match k {
            0 => {
                nat_from!(u8, u16, u32, u64, u128, usize);
                int_from!(i8, i16, i32, i64, i128, isize);
                let n = must("Nat::from", || Nat::from(raw))?;
                self.res_nat(cx, "Nat::from", n, Some(U::from_u128(raw)), poke)
            }
            1 => {
                let v = raw as i128;
                let b = must("BigInt::from", || BigInt::from(v))?;
                self.res_int(cx, "BigInt::from", b, Some(I::new(v < 0, U::from_u128(v.unsigned_abs()))), poke)
            }
            2 => {
                let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
                let u = self.nat(a).1;
                let V::N(x) = &self.hs[a].v else { unreachable!() };
                // half the time the machine integer nearest to the number
                let v = if r.chance(1, 2) {
                    raw
                } else {
                    let l = u.as_ref().map_or(vec![], |u| u.lib_limbs());
                    let w = (0..4).rev().fold(0u128, |a, i| a << 32 | *l.get(i).unwrap_or(&0) as u128);
                    match r.below(3) {
                        0 => w,
                        1 => w.wrapping_add(1),
                        _ => w.wrapping_sub(1),
                    }
                };
                nat_cmp!(x, u, v, u8, u16, u32, u64, u128, usize);
                Ok(())
            }
            3 => {
                let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
                let u = self.int(a).1;
                let V::I(x) = &self.hs[a].v else { unreachable!() };
                let v = if r.chance(1, 2) { raw as u32 } else { u.as_ref().map_or(0, |u| u.m.lib_limbs()[0]) };
                let got = must("int == word", || *x == v)?;
                ensure!(got == (u.as_ref().map_or(false, |u| !u.neg && u.m == U::from_u64(v as u64))), "wrong-result", "{:?} == {} gives {}", u.as_ref().map(|u| u.hex()), v, got);
                if let Some(u) = &u {
                    // bits of the two's complement form
                    let t = if u.neg { u.m.sub(&U::from_u64(1)) } else { u.m.clone() };
                    let n = t.bits().max(1);
                    let i = r.below(n as u64) as usize;
                    let got = must("int is_set_bit", || x.is_set_bit(i))?;
                    ensure!(got == Some(t.bit(i) != u.neg), "wrong-result", "bit {} of {} is reported {:?}", i, u.hex(), got);
                }
                Ok(())
            }
            4 | 5 => {
                // text in every base, with the padding a user may write
                let (neg, u) = if k == 4 {
                    let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
                    (false, self.nat(a).1)
                } else {
                    let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
                    let v = self.int(a).1;
                    (v.as_ref().map_or(false, |v| v.neg), v.map(|v| v.m))
                };
                let Some(u) = u.filter(|u| u.bits() < 700) else { return Ok(()) };
                let t = match r.below(5) {
                    0 => dec(&u),
                    1 => format!("0x{}", u.hex()),
                    2 => format!("0X{}", u.hex().to_uppercase()),
                    3 => format!("0o{}", radix(&u, 3)),
                    _ => format!("0b{}", radix(&u, 1)),
                };
                let t = format!("{}{}", if neg { "-" } else { "" }, t);
                let no = |_| Violation { class: "wrong-result".into(), detail: format!("{} is refused", t) };
                if k == 4 {
                    let n = must("parse", || Nat::from_str(&t))?.map_err(no)?;
                    self.res_nat(cx, &format!("parsing {}", t), n, Some(u), poke)
                } else {
                    let n = must("parse", || BigInt::from_str(&t))?.map_err(no)?;
                    self.res_int(cx, &format!("parsing {}", t), n, Some(I::new(neg, u)), poke)
                }
            }
            6 => {
                let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
                let (x, u) = self.nat(a);
                let Some(u) = u else { return Ok(()) };
                let want: Vec<u8> = (0..(u.bits() + 7) / 8).map(|i| (0..8).map(|j| (u.bit(8 * i + j) as u8) << j).sum()).collect();
                // appended to what the caller's buffer already holds
                let mut buf = vec![7u8; r.below(4) as usize];
                let k0 = buf.len();
                let le = r.chance(1, 2);
                must("copy_to", || if le { x.copy_to_le(&mut buf) } else { x.copy_to_be(&mut buf) })?;
                cx.obs_bytes(&buf);
                let b2 = must("to bytes", || if le { x.to_le_bytes() } else { x.to_be_bytes() })?;
                let strip = |b: &[u8]| -> Vec<u8> {
                    let mut v = b.to_vec();
                    if !le {
                        v.reverse();
                    }
                    while v.last() == Some(&0) {
                        v.pop();
                    }
                    v
                };
                let _ = k0;
                ensure!(strip(&b2) == want, "wrong-result", "the bytes of {} are {:?}", u.hex(), b2);
                ensure!(buf.ends_with(&b2), "wrong-result", "the bytes of {} are copied as {:?}", u.hex(), buf);
                let n = must("from bytes", || if le { Nat::from_le_bytes(&b2) } else { Nat::from_be_bytes(&b2) })?;
                self.res_nat(cx, "bytes round trip", n, Some(u), poke)
            }
            8 => {
                // bytes and words of any length, however they are padded
                let n = if r.chance(1, 4) { r.range(0, 120) } else { r.range(0, 22) } as usize;
                let mut b: Vec<u8> = (0..n)
                    .map(|_| match r.below(6) {
                        0 => 0,
                        1 => 0xff,
                        2 => 1,
                        _ => r.u32() as u8,
                    })
                    .collect();
                let pad = r.below(7) as usize % 6;
                if r.chance(1, 2) {
                    // a top byte that is nearly nothing, then padding
                    if let Some(x) = b.last_mut() {
                        *x = *r.pick(&[1, 1, 2, 0x7f, 0x80, 0xff]);
                    }
                    if r.chance(1, 2) {
                        b.extend(vec![0u8; pad]);
                    }
                }
                let u = if b.is_empty() { None } else { Some(b.iter().rev().fold(U::from_u64(0), |a, &x| a.shl(8).add(&U::from_u64(x as u64)))) };
                let mut be = b.clone();
                be.reverse();
                let words: Vec<u32> = b.chunks(4).map(|c| c.iter().rev().fold(0u32, |a, &x| a << 8 | x as u32)).collect();
                if r.chance(1, 3) {
                    let v = match r.below(8) {
                        0 => must("int from bytes", || BigInt::from(&b[..]))?,
                        1 => must("int from bytes", || BigInt::from(b.clone()))?,
                        2 => must("int from bytes", || BigInt::from(&b))?,
                        3 => must("int from bytes", || BigInt::from_le_bytes(&b))?,
                        4 => must("int from bytes", || BigInt::from_be_bytes(&be))?,
                        5 => must("int from words", || BigInt::from(&words[..]))?,
                        6 => must("int from words", || BigInt::from(words.clone()))?,
                        _ => must("int from words", || BigInt::from(&words))?,
                    };
                    return self.res_int(cx, &format!("integer from bytes {:x?}", b), v, u.map(|u| I::new(false, u)), poke);
                }
                let v = match r.below(8) {
                    0 => must("from bytes", || Nat::from(&b[..]))?,
                    1 => must("from bytes", || Nat::from(b.clone()))?,
                    2 => must("from bytes", || Nat::from(&b))?,
                    3 => must("from bytes", || Nat::from_le_bytes(&b))?,
                    4 => must("from bytes", || Nat::from_be_bytes(&be))?,
                    5 => must("from words", || Nat::from(&words[..]))?,
                    6 => must("from words", || Nat::from(words.clone()))?,
                    _ => must("from words", || Nat::from(&words))?,
                };
                self.res_nat(cx, &format!("natural from bytes {:x?}", b), v, u, poke)
            }
            9 => {
                // text with leading zeros, mixed case and surrounding space
                let top = if r.chance(1, 5) { 20 } else { 4 };
                let w = r.range(0, top);
                let u = U::from_limbs(&super::random::limbs(r.below(12), w, r.u64()));
                let zeros = "0".repeat(match r.below(3) {
                    0 => 0,
                    1 => r.range(0, 12) as usize,
                    _ => r.range(0, 70) as usize,
                });
                let body = match r.below(4) {
                    0 => dec(&u),
                    1 => {
                        let h: String = u.hex().chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
                        format!("{}{}{}", if r.chance(1, 2) { "0x" } else { "0X" }, zeros, h)
                    }
                    2 => format!("{}{}{}", "0o", zeros, radix(&u, 3)),
                    _ => format!("{}{}{}", if r.chance(1, 2) { "0b" } else { "0B" }, zeros, radix(&u, 1)),
                };
                let neg = r.chance(1, 2);
                let (l, t) = if r.chance(1, 4) { (" ", "\n") } else { ("", "") };
                if neg || r.chance(1, 3) {
                    let t = format!("{}{}{}{}", l, if neg { "-" } else { "" }, body, t);
                    let n = must("parse", || BigInt::from_str(&t))?.map_err(|_| Violation { class: "wrong-result".into(), detail: format!("{:?} is refused", t) })?;
                    return self.res_int(cx, &format!("parsing {:?}", t), n, Some(I::new(neg && !u.is_zero(), u)), poke);
                }
                let t = format!("{}{}{}", l, body, t);
                let n = must("parse", || Nat::from_str(&t))?.map_err(|_| Violation { class: "wrong-result".into(), detail: format!("{:?} is refused", t) })?;
                self.res_nat(cx, &format!("parsing {:?}", t), n, Some(u), poke)
            }
            _ => {
                let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
                let (x, u) = self.int(a);
                let Some(u) = u.filter(|u| !u.neg) else { return Ok(()) };
                let le = r.chance(1, 2);
                let b = must("int to bytes", || if le { x.to_le_bytes() } else { x.to_be_bytes() })?;
                let mut buf = vec![9u8; r.below(4) as usize];
                must("int copy_to", || if le { x.copy_to_le(&mut buf) } else { x.copy_to_be(&mut buf) })?;
                cx.obs_bytes(&buf);
                ensure!(buf.ends_with(&b), "wrong-result", "the bytes of {} are copied as {:?}", u.hex(), buf);
                let n = must("int from bytes", || if le { BigInt::from_le_bytes(&b) } else { BigInt::from_be_bytes(&b) })?;
                self.res_int(cx, "integer bytes round trip", n, Some(u), poke)
            }
        }
    }

    /// requests the library refuses or abandons: whatever comes back, nothing that exists may change
    fn refused(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let k = s.arg(0) % 14;
        let e = s.arg(4);
        let r: Result<bool, Caught> = match k {
            0..=4 => {
                let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
                let b = self.pick2(1, s, 2, a, s.arg(6));
                if size(&self.hs[a].v) > 12 || size(&self.hs[b].v) > 12 {
                    return Ok(());
                }
                let (x, y) = (self.int(a).0, self.int(b).0);
                let z = if e & 1 == 0 { BigInt::from(0u32) } else { BigInt::from(Vec::<u32>::new()) };
                guard(|| match k {
                    0 => x.mod_inverse(z).is_nan(),
                    1 => x.solve_mod_linear_equation(y, z).is_none(),
                    2 => Rat::from_frac_bigint(&x, &z).is_err(),
                    3 => x.jacobi(&(y.clone() + y)).is_none(),
                    _ => x.gcd(z).0.is_nan(),
                })
            }
            5 => {
                let Some(a) = self.pick(2, s, 1) else { return Ok(()) };
                let x = self.rat(a);
                guard(|| x.inv().is_err())
            }
            6 | 7 => {
                let Some(a) = self.pick(3, s, 1) else { return Ok(()) };
                let x = self.float(a);
                let inf = Float::get_inf(e & 1 == 1);
                guard(|| match e >> 1 & 3 {
                    0 => (x / Float::from(0u32)).is_nan(),
                    1 => (inf.clone() - inf).is_nan(),
                    2 => (x * inf).is_nan(),
                    _ => (Float::from(0u32) / (x.clone() - x)).is_nan(),
                })
            }
            8 | 9 => {
                let t = ["", "-", "0x", "0b102", "12a", "0o9", "-0xg", " ", "\u{e9}1", "0xffffffffffffffffffffz", "1_000", "+5"][(e % 12) as usize];
                guard(|| if k == 8 { Nat::from_str(t).is_err() } else { BigInt::from_str(t).is_err() })
            }
            12 | 13 => {
                let mut g = SimRng::new(vec![], s.arg(2), Default::default(), 20000);
                guard(|| match k {
                    12 => Nat::generate_prime((e % 3) as usize, (e >> 8 & 1) as usize, &mut g).is_err(),
                    _ => Nat::default().random(&mut g).is_nan() && BigInt::from(Vec::<u32>::new()).random(&mut g).is_nan(),
                })
            }
            10 => guard(|| Rat::from_f64([f64::NAN, f64::INFINITY, -f64::INFINITY, -0.0][(e % 4) as usize]).is_nan()),
            _ => {
                let Some(a) = self.pick(0, s, 1) else { return Ok(()) };
                let x = self.nat(a).0;
                guard(|| (x * Nat::default()).is_nan())
            }
        };
        match r {
            Ok(true) => cx.probe("request_refused"),
            Ok(false) => cx.probe("request_answered"),
            Err(_) => cx.fault("odd_request_panic"),
        }
        Ok(())
    }

    /// a rational built from two live integers owns its parts
    fn rat_of_ints(&mut self, s: &Step, cx: &mut Cx) -> Check {
        let Some(a) = self.pick(1, s, 1) else { return Ok(()) };
        let b = self.pick2(1, s, 2, a, s.arg(6));
        if size(&self.hs[a].v) > 10 || size(&self.hs[b].v) > 10 {
            return Ok(());
        }
        let ((x, xv), (y, yv)) = (self.int(a), self.int(b));
        let (dx, dy) = (x.deep_clone(), y.deep_clone());
        let got = guard(|| Rat::from_frac_bigint(&x, &y).ok());
        let want = guard(|| Rat::from_frac_bigint(&dx, &dy).ok());
        match (got, want) {
            (Ok(Some(g)), Ok(Some(w))) => {
                ensure!(rat_read(&g) == rat_read(&w), "shared-differs", "the fraction of {:?} and {:?} depends on whether its operands are shared", xv.map(|v| v.hex()), yv.map(|v| v.hex()));
                cx.probe("rational_from_live_integers");
                if let (Some(xv), Some(yv)) = (&xv, &yv) {
                    let e = (I::new(xv.neg != yv.neg, xv.m.clone()), I::pos(yv.m.clone()));
                    rat_is("the fraction of two integers", &rat_read(&g), g.denominator().is_negative(), &e)?;
                }
                self.push_rat(g);
                Ok(())
            }
            (Ok(None), Ok(None)) | (Err(_), Err(_)) => Ok(()),
            _ => violation("shared-differs", "a fraction is refused for only one of shared and independent operands"),
        }
    }

    pub fn step(&mut self, s: &Step, cx: &mut Cx) -> Check {
        beat();
        match s.op {
            0 => self.new_nat(s),
            1 => Ok(self.new_int(s)),
            2 => Ok(self.new_rat(s)),
            3 => Ok(self.new_float(s)),
            4 => self.share(s, false),
            5 => self.share(s, true),
            6 => Ok(self.view(s)),
            7 => {
                if let Some(i) = self.any(s, 0) {
                    self.hs.remove(i);
                }
                Ok(())
            }
            8 => self.nat_value(s, cx),
            9 => self.nat_inplace(s, cx),
            10 => self.int_value(s, cx),
            11 => self.int_inplace(s, cx),
            12 => self.rat_value(s, cx),
            13 => self.rat_inplace(s, cx),
            14 => self.float_value(s, cx),
            15 => self.float_inplace(s, cx),
            16 => self.convert(s, cx),
            17 => self.compare(s, cx),
            18 => self.format(s, cx),
            19 => self.crash_arith(s, cx),
            20 => self.crash_source(s, cx),
            21 => self.crash_sink(s, cx),
            22 => self.crash_generator(s, cx),
            23 => self.generator(s, cx),
            24 => self.big(s, cx),
            25 => self.machine(s, cx),
            26 => self.refused(s, cx),
            27 => self.rat_of_ints(s, cx),
            _ => Ok(()),
        }?;
        self.cells_gc();
        self.audit(cx, OPS[(s.op as usize).min(OPS.len() - 1)])
    }
    fn cells_gc(&mut self) {
        if self.cells.len() > 400 {
            let mut used = std::collections::BTreeSet::new();
            for h in &self.hs {
                match h.m {
                    M::N(c) | M::I(c, _) => {
                        used.insert(c);
                    }
                    M::R(a, _, b) => {
                        used.insert(a);
                        used.insert(b);
                    }
                    _ => {}
                }
            }
            used.insert(self.crowd.0);
            self.cells.retain(|c, _| used.contains(c));
        }
    }
}

/// decimal digits of the reference value
pub fn dec(u: &U) -> String {
    let ten9 = U::from_u64(1_000_000_000);
    let (mut v, mut parts) = (u.clone(), vec![]);
    while !v.is_zero() {
        let (q, r) = v.divrem(&ten9);
        parts.push(r.to_u64().unwrap());
        v = q;
    }
    match parts.pop() {
        None => "0".into(),
        Some(h) => {
            let mut t = h.to_string();
            for p in parts.iter().rev() {
                let _ = write!(t, "{:09}", p);
            }
            t
        }
    }
}
/// digits in base 2^k
pub fn radix(u: &U, k: usize) -> String {
    let n = (u.bits() + k - 1) / k;
    if n == 0 {
        return "0".into();
    }
    (0..n).rev().map(|i| char::from(b'0' + (0..k).map(|j| (u.bit(i * k + j) as u8) << j).sum::<u8>())).collect()
}
/// whether text `t`, made in format `fm`, stands for the number; the base prefix and how a width is
/// filled are the library's choice, sign and digits are not
fn denotes(t: &str, fm: u64, u: &U, neg: bool) -> bool {
    if fm == 18 {
        return t.split_once(", ").map_or(false, |(a, b)| denotes(a, 1, u, neg) && denotes(b, 0, u, neg));
    }
    let t = match fm {
        11 => match t.strip_prefix('<').and_then(|t| t.strip_suffix('>')) {
            Some(t) => t,
            None => return false,
        },
        14 => match t.strip_suffix('|') {
            Some(t) => t.trim(),
            None => return false,
        },
        12 => t.trim(),
        13 => t.strip_prefix('+').unwrap_or(t),
        // a precision may shorten the text
        16 => return true,
        _ => t,
    };
    let t = match (t.strip_prefix('-'), neg) {
        (Some(t), true) => t,
        (None, false) => t,
        _ => return false,
    };
    let bare = |p: &str| {
        let d = t.strip_prefix(p).unwrap_or(t);
        if fm == 15 || fm == 17 {
            let d = d.trim_start_matches('0');
            return if d.is_empty() { "0".to_string() } else { d.to_string() };
        }
        d.to_string()
    };
    match fm {
        1 | 6 | 14 => bare("0x") == u.hex(),
        2 | 7 => bare("0x") == u.hex().to_uppercase() || bare("0X") == u.hex().to_uppercase(),
        3 | 8 => bare("0o") == radix(u, 3),
        4 | 9 | 17 => bare("0b") == radix(u, 1),
        5 | 10 => bare("0x") == u.hex() || bare("") == dec(u),
        _ => bare("") == dec(u),
    }
}
pub fn size(v: &V) -> usize {
    match v {
        V::N(n) => nat_limbs(n).len(),
        V::I(n) => int_limbs(n).len(),
        V::R(r) => int_limbs(r.numerator()).len() + int_limbs(r.denominator()).len(),
        V::F(_) => 2,
    }
}
pub fn deep(v: &V) -> V {
    match v {
        V::N(n) => V::N(n.deep_clone()),
        V::I(n) => V::I(n.deep_clone()),
        V::R(n) => V::R(n.deep_clone()),
        V::F(n) => V::F(n.deep_clone()),
    }
}
pub const NFMT: u64 = 19;
/// write a number in format `k`; floats have fewer formats
pub fn render_to(v: &V, k: u64, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    macro_rules! all {
        ($n: expr) => {
            match k {
                0 => write!(w, "{}", $n),
                1 => write!(w, "{:x}", $n),
                2 => write!(w, "{:X}", $n),
                3 => write!(w, "{:o}", $n),
                4 => write!(w, "{:b}", $n),
                5 => write!(w, "{:?}", $n),
                6 => write!(w, "{:#x}", $n),
                7 => write!(w, "{:#X}", $n),
                8 => write!(w, "{:#o}", $n),
                9 => write!(w, "{:#b}", $n),
                10 => write!(w, "{:#?}", $n),
                11 => write!(w, "<{}>", $n),
                12 => write!(w, "{:>60}", $n),
                13 => write!(w, "{:+}", $n),
                14 => write!(w, "{:<#30x}|", $n),
                15 => write!(w, "{:030}", $n),
                16 => write!(w, "{:*^9.3?}", $n),
                17 => write!(w, "{:#036b}", $n),
                _ => write!(w, "{:x}, {}", $n, $n),
            }
        };
    }
    match v {
        V::N(n) => all!(n),
        V::I(n) => all!(n),
        V::R(n) => all!(n),
        V::F(n) => match k % 11 {
            0 => write!(w, "{:e}", n),
            1 => write!(w, "{:E}", n),
            2 => write!(w, "{:.0e}", n),
            3 => write!(w, "{:.40E}", n),
            4 => write!(w, "{}", n),
            5 => write!(w, "{:.7}", n),
            6 => write!(w, "{:>40}", n),
            7 => write!(w, "{:+.3e}", n),
            8 => write!(w, "{:.100E}", n),
            9 => write!(w, "{:#040.2?}", n),
            _ => write!(w, "{:?}", n),
        },
    }
}
pub fn render(v: &V, k: u64) -> String {
    let mut t = String::new();
    let _ = render_to(v, k, &mut t);
    t
}
struct PanicSink {
    left: usize,
    text: String,
}
impl std::fmt::Write for PanicSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        crate::sched::callback();
        if s.len() > self.left {
            let l = self.left;
            self.text.push_str(s.get(..l).unwrap_or(""));
            self.left = 0;
            std::panic::panic_any(SimPanic::Injected);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

// ---------------------------------------------------------------------- plans
/// run on a thread with a small stack (a worker of a thread pool, say): the depth of the calls must not
/// grow with the length of the numbers. Where the simulated heap is on, which knows one thread, run in place.
fn on_small_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    if crate::alloc::is_on() {
        return f();
    }
    std::thread::Builder::new().stack_size(512 << 10).spawn(f).expect("thread").join().expect("thread")
}

/// numbers of hundreds of words whose division sequences are as long as they can be
fn deep_numbers(s: &Step, cx: &mut Cx) -> Check {
    let seed = s.arg(4);
    let r = &mut Prng::new(seed);
    let words = if r.chance(1, 2) { r.range(150, 260) } else { r.range(4, 60) } as usize;
    let (mut a, mut b) = (U::from_u64(r.below(50)), U::from_u64(1 + r.below(50)));
    let g = a.gcd(&b);
    let odd_steps = r.chance(1, 2);
    while b.bits() < words * 32 {
        let mut t = a.add(&b);
        if odd_steps && r.chance(1, 6) {
            t = t.add(&b.mul(&U::from_u64(r.spicy32() as u64)));
        }
        a = b;
        b = t;
    }
    let f = if r.chance(1, 2) { runs(r.u64(), 1 + r.below(4) as usize) } else { U::from_u64(1) };
    let f = if f.is_zero() { U::from_u64(1) } else { f };
    let (mut p, mut q) = (a.mul(&f), b.mul(&f));
    let g = g.mul(&f);
    if r.chance(1, 2) {
        std::mem::swap(&mut p, &mut q);
    }
    let (np, nq) = (r.chance(1, 4), r.chance(1, 4));
    let (lp, lq) = (p.lib_limbs(), q.lib_limbs());
    let what = r.below(3);
    type Out = (Vec<(bool, Vec<u32>)>, Option<isize>);
    let res: Result<Out, Violation> = on_small_stack(move || {
        let mk = |l: Vec<u32>, neg: bool| {
            let mut n = BigInt::from(l);
            if neg {
                n.set_negative();
            }
            n
        };
        let give = |i: &BigInt| (i.is_negative(), int_limbs(i));
        match what {
            0 => {
                let (d, u, v) = must("gcd", || mk(lp, np).gcd(mk(lq, nq)))?;
                Ok((vec![give(&d), give(&u), give(&v)], None))
            }
            1 => Ok((vec![give(&must("mod_inverse", || mk(lp, false).mod_inverse(mk(lq, false)))?)], None)),
            _ => Ok((vec![], must("jacobi", || mk(lp, np).jacobi(&mk(lq, false)))?)),
        }
    });
    cx.probe("long_division_sequence");
    let (ip, iq) = (I::new(np, p.clone()), I::new(nq, q.clone()));
    let read = |x: &(bool, Vec<u32>)| val(&x.1).map(|m| I { neg: x.0, m });
    let name = format!("of numbers of {} and {} bits (seed {:#x})", p.bits(), q.bits(), seed);
    match what {
        0 => {
            let (o, _) = res?;
            o.iter().for_each(|x| cx.obs_limbs(&x.1));
            let v: Vec<Option<I>> = o.iter().map(read).collect();
            ensure!(v[0] == Some(I::pos(g.clone())), "wrong-result", "gcd {} is wrong", name);
            let ok = match (&v[1], &v[2]) {
                (Some(x), Some(y)) => x.mul(&ip).add(&y.mul(&iq)) == I::pos(g.clone()),
                _ => false,
            };
            ensure!(ok, "wrong-result", "the gcd coefficients {} are wrong", name);
        }
        1 => {
            // only numbers without a common factor have an inverse
            if !g.is_one() || q.bits() < 2 {
                return Ok(());
            }
            let (o, _) = res?;
            cx.obs_limbs(&o[0].1);
            let ok = read(&o[0]).map_or(false, |x| x.mul(&I::pos(p.clone())).rem_euclid(&I::pos(q.clone())).m.is_one());
            ensure!(ok, "wrong-result", "the inverse {} is wrong", name);
        }
        _ => {
            if !q.is_odd() {
                return Ok(());
            }
            let (_, j) = res?;
            cx.obs(j.unwrap_or(5) as u64);
            let want = U::jacobi(&ip.rem_euclid(&I::pos(q.clone())).m, &q);
            ensure!(j == Some(want as isize), "wrong-result", "the Jacobi symbol {} is {:?}", name, j);
        }
    }
    Ok(())
}

fn gen_world(r: &mut Prng, thorough: bool, w: &[u64; 28]) -> Plan {
    let tasks = r.range(1, 4);
    let n = if thorough { r.range(20, 160) } else { r.range(12, 48) };
    // sizes: mostly a few words, sometimes large enough for the recursive kernels
    let big = r.chance(1, 8);
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        for i in 0..n / tasks + 3 {
            let op = if i < 2 { r.below(2) } else { r.weighted(w) as u64 } as u32;
            let m = if r.chance(1, 4) { 9 } else if r.chance(1, 12) { 20 } else { 4 };
            let len = if big && r.chance(1, 3) { r.range(18, 40) } else { r.range(1, m) };
            let a = match op {
                0 | 1 => {
                    let mut a = vec![r.below(if op == 0 { 24 } else { 40 }), len, r.u64() >> 20, r.below(12)];
                    if i >= 2 && r.chance(1, 2) {
                        a.extend([1 + r.below(16), r.below(64), r.below(64)]);
                    }
                    a
                }
                2 | 3 => vec![r.below(30), r.below(1000), r.u64() >> 20],
                _ => vec![r.below(60), r.below(64), r.below(64), r.below(64), if r.chance(1, 4) { 32 * r.below(4) } else { r.u64() >> 30 }, r.below(8), r.below(16)],
            };
            p.push(Step { task: t as u32, op, a });
        }
        progs.push(p);
    }
    Plan { cfg: vec![], steps: super::interleave(r, progs) }
}

//                          nN nI nR nF sh dc vw dr nv  ni iv  ii rv ri fv fi cv cm fm ca cs ck cg g  bg mc rf ri
const W7: [u64; 28] = [8, 6, 2, 2, 14, 5, 4, 2, 26, 6, 26, 6, 6, 1, 6, 1, 5, 5, 5, 0, 0, 0, 0, 0, 4, 7, 1, 3];
const W8: [u64; 28] = [6, 5, 2, 2, 16, 6, 6, 2, 5, 30, 5, 30, 1, 5, 1, 6, 2, 2, 2, 0, 0, 0, 0, 0, 1, 2, 1, 3];
const W9: [u64; 28] = [7, 6, 2, 2, 10, 3, 4, 1, 6, 8, 6, 8, 2, 2, 2, 2, 2, 2, 2, 18, 12, 10, 8, 4, 1, 1, 8, 1];
const W14: [u64; 28] = [9, 7, 2, 3, 6, 3, 2, 3, 24, 12, 22, 10, 5, 2, 6, 4, 4, 2, 4, 1, 3, 1, 2, 3, 4, 3, 1, 2];

fn gen7(r: &mut Prng, t: bool) -> Plan {
    gen_world(r, t, &W7)
}
fn gen8(r: &mut Prng, t: bool) -> Plan {
    gen_world(r, t, &W8)
}
fn gen9(r: &mut Prng, t: bool) -> Plan {
    gen_world(r, t, &W9)
}
fn gen14(r: &mut Prng, t: bool) -> Plan {
    let mut p = gen_world(r, t, &W14);
    p.cfg = vec![r.u64() >> 8, r.range(1, 3)];
    p
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let mut w = World::new();
    for s in &plan.steps {
        cx.sched(s);
        w.step(s, cx)?;
    }
    w.audit(cx, "end")
}

const W16: [u64; 28] = [8, 6, 6, 6, 5, 2, 2, 2, 12, 6, 12, 6, 14, 8, 16, 10, 8, 3, 6, 1, 1, 1, 1, 1, 5, 5, 1, 4];
pub fn gen_cross(r: &mut Prng, t: bool) -> Plan {
    gen_world(r, t, &W16)
}
/// run a history, observing the outcome of each step and everything that lives after it
pub fn record(plan: &Plan, cx: &mut Cx) -> u64 {
    let mut w = World::new();
    for (i, s) in plan.steps.iter().enumerate() {
        cx.sched(s);
        let mut c = Cx::default();
        let r = guard(|| w.step(s, &mut c));
        for (k, n) in c.faults {
            cx.faultn(k, n);
        }
        cx.obs(c.trace);
        let end = match r {
            Err(_) => Some(1),
            Ok(Err(v)) => Some(text_hash(&v.class)),
            Ok(Ok(())) => None,
        };
        for h in &w.hs {
            match &h.v {
                V::N(n) => cx.obs_limbs(&nat_limbs(n)),
                V::I(n) => {
                    cx.obs(n.is_negative() as u64);
                    cx.obs_limbs(&int_limbs(n));
                }
                V::R(r) => {
                    let (a, b, n, d) = rat_read(r);
                    cx.obs(2 * a as u64 + b as u64);
                    cx.obs_limbs(&n);
                    cx.obs_limbs(&d);
                    cx.probe("rational_result");
                }
                V::F(_) => {
                    if let M::F(_, fp) = &h.m {
                        fp.iter().for_each(|x| cx.obs(*x));
                    }
                    cx.probe("float_result");
                }
            }
        }
        cx.check();
        let t = cx.trace;
        cx.say(|| format!("step {} {} -> {:016x}{}", i, OPS[(s.op as usize).min(OPS.len() - 1)], t, end.map_or("", |_| " (history ends here)")));
        if let Some(e) = end {
            return e;
        }
    }
    2
}

/// what one run under one heap looked like
fn trace(plan: &Plan, cx: &mut Cx) -> Result<(Vec<u64>, Option<Violation>), Violation> {
    let mut w = World::new();
    let mut out = vec![];
    for s in &plan.steps {
        let mut c = Cx::default();
        let r = w.step(s, &mut c);
        cx.checks += c.checks;
        cx.steps += 1;
        for (k, n) in c.faults {
            cx.faultn(k, n);
        }
        let mut h = c.trace;
        if let Some((k, n)) = alloc::corruption() {
            return violation(k, format!("while {} (block of {} bytes)", OPS[s.op as usize], n));
        }
        if let Err(v) = r {
            h = mix(h, text_hash(&v.class));
            out.push(mix(h, text_hash(&v.detail)));
            return Ok((out, Some(v)));
        }
        out.push(h);
    }
    drop(w);
    alloc::sweep();
    if let Some((k, n)) = alloc::corruption() {
        return violation(k, format!("found at the end (block of {} bytes)", n));
    }
    Ok((out, None))
}

fn exec14(plan: &Plan, cx: &mut Cx) -> Check {
    let mut sched = Cx::default();
    for s in &plan.steps {
        sched.sched(s);
    }
    cx.sched = sched.sched;
    let (base, bv) = trace(plan, cx)?;
    for x in &base {
        cx.obs(*x);
    }
    for k in 0..1 + plan.cfg(1) % 4 {
        alloc::on(mix(plan.cfg(0), k));
        let r = trace(plan, cx);
        let (blocks, moves) = alloc::off();
        cx.faultn("fresh_block_with_garbage", blocks);
        cx.faultn("growth_moved_block", moves);
        let (t, v) = r?;
        if let Some((k, n)) = alloc::corruption() {
            return violation(k, format!("found when the heap was released (block of {} bytes)", n));
        }
        if t != base {
            let i = t.iter().zip(&base).position(|(a, b)| a != b).unwrap_or(t.len().min(base.len()));
            let s = plan.steps.get(i);
            return violation(
                "heap-dependent",
                format!("step {} ({}) observes something else under heap {} than under the plain heap{}", i, s.map_or("end", |s| OPS[s.op as usize]), k, v.or(bv).map_or(String::new(), |v| format!(": {}: {}", v.class, v.detail))),
            );
        }
        cx.probe("heaps_compared");
    }
    Ok(())
}

const REAL: &[&str] = &["Nat, BigInt, Rat, Float: operators, in-place operators, constructors, conversions, formatting", "all kernels beneath (the x86 and the portable variant, in separate builds)"];

pub const C07: PropDef = PropDef {
    id: "C07", ops: OPS, gen: gen7, exec, builds: &[("native", 1), ("portable", 1)], quick: 160000, thorough: 3000000,
    rule: "one evaluation is one simulated run of several owners over one sharing graph; it is non-trivial if at least one operation was judged against the model and every live handle was read after each of more than one scheduled steps; distinct by (schedule hash, observation hash)",
    real: REAL,
    stub: &["owners of the numbers (simulated tasks)"],
    assumptions: &["not-a-number operands only where the library documents them", "rationals and floats are compared with the same operation on deep copies, not with an exact reference", "live values up to 80 words; single operations on operands of up to 600 words"],
    must_reach: &["long_division_sequence", "operands_share_storage", "operand_shared_with_bystander", "result_changed_in_place", "not_a_number_operand"],
};
pub const C08: PropDef = PropDef {
    id: "C08", ops: OPS, gen: gen8, exec, builds: &[("native", 1), ("portable", 1)], quick: 160000, thorough: 3000000,
    rule: "one evaluation is one simulated run of several owners over one sharing graph; it is non-trivial if at least one in-place operation was judged against the model and every live handle was read after each of more than one scheduled steps; distinct by (schedule hash, observation hash)",
    real: REAL,
    stub: &["owners of the numbers (simulated tasks)"],
    assumptions: &["other handles of a rational or float that is changed in place are released: the library does not specify what they read", "operand sizes up to 80 words"],
    must_reach: &["inplace_operand_shares_storage", "inplace_on_shared_storage", "inplace_operand_shares_storage_opposite_sign"],
};
pub const C09: PropDef = PropDef {
    id: "C09", ops: OPS, gen: gen9, exec, builds: &[("native", 1), ("portable", 1)], quick: 120000, thorough: 2000000,
    rule: "one evaluation is one simulated run in which calls are abandoned by panics and the history goes on; it is non-trivial if at least one call was abandoned or judged and every live handle was read after each of more than one scheduled steps; distinct by (schedule hash, observation hash)",
    real: REAL,
    stub: &["owners of the numbers", "random sources, seed sources and sinks that panic at a chosen call or byte"],
    assumptions: &["a division by zero that does not panic is not judged here"],
    must_reach: &["division_by_zero_panic", "source_panic", "sink_panic", "seed_panic", "inplace_division_abandoned", "abandoned_on_shared_storage"],
};
pub const C14: PropDef = PropDef {
    id: "C14", ops: OPS, gen: gen14, exec: exec14, builds: &[("native", 1), ("portable", 1)], quick: 16000, thorough: 600000,
    rule: "one evaluation is one simulated run executed under the plain heap and one to four adversarial heaps; it is non-trivial if at least one pair of heaps was compared over more than one scheduled steps; distinct by (schedule hash, observation hash)",
    real: REAL,
    stub: &["global allocator (seeded garbage in fresh blocks, seeded placement, guard zones, always-moving growth, poisoned quarantine)"],
    assumptions: &["a stray write is seen if it hits a guard zone of 64 bytes on either side or a quarantined block", "a stray read is seen if it changes an observed result"],
    must_reach: &["fresh_block_with_garbage", "growth_moved_block", "heaps_compared"],
};
