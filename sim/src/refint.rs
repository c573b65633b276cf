//! A small, slow, independent implementation of integers: the reference model.
use std::cmp::Ordering;

/// little endian, no leading zero words, empty = 0
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct U(pub Vec<u32>);

impl U {
    pub fn zero() -> U {
        U(vec![])
    }
    pub fn from_u64(x: u64) -> U {
        U::norm(vec![x as u32, (x >> 32) as u32])
    }
    pub fn from_u128(x: u128) -> U {
        U::norm((0..4).map(|i| (x >> (32 * i)) as u32).collect())
    }
    pub fn norm(mut v: Vec<u32>) -> U {
        while v.last() == Some(&0) {
            v.pop();
        }
        U(v)
    }
    pub fn from_limbs(v: &[u32]) -> U {
        U::norm(v.to_vec())
    }
    pub fn parse_hex(s: &str) -> U {
        let mut r = U::zero();
        for c in s.chars().filter(|c| !c.is_whitespace() && *c != '_') {
            r = r.shl(4).add(&U::from_u64(c.to_digit(16).expect("hex") as u64));
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |x| x & 1 == 1)
    }
    pub fn is_one(&self) -> bool {
        self.0 == [1]
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 32).map_or(false, |x| (x >> (i % 32)) & 1 == 1)
    }
    /// canonical limbs as the library stores them (0 is one zero word)
    pub fn lib_limbs(&self) -> Vec<u32> {
        if self.0.is_empty() {
            vec![0]
        } else {
            self.0.clone()
        }
    }
    pub fn cmp(&self, o: &U) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn lt(&self, o: &U) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn add(&self, o: &U) -> U {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let t = c + *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        U::norm(v)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &U) -> U {
        assert!(!self.lt(o), "refint: negative difference");
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut t = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if t < 0 {
                t += 1 << 32;
                b = 1;
            }
            v.push(t as u32);
        }
        U::norm(v)
    }
    pub fn absdiff(&self, o: &U) -> U {
        if self.lt(o) {
            o.sub(self)
        } else {
            self.sub(o)
        }
    }
    pub fn mul(&self, o: &U) -> U {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + v[i + j] as u64 + c;
                v[i + j] = t as u32;
                c = t >> 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        U::norm(v)
    }
    pub fn shl(&self, n: usize) -> U {
        if self.is_zero() {
            return U::zero();
        }
        let (w, b) = (n / 32, n % 32);
        let mut v = vec![0u32; w];
        let mut c = 0u64;
        for &x in &self.0 {
            let t = ((x as u64) << b) | c;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        U::norm(v)
    }
    pub fn shr(&self, n: usize) -> U {
        let (w, b) = (n / 32, n % 32);
        if w >= self.0.len() {
            return U::zero();
        }
        let mut v = Vec::new();
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            let t = ((hi << 32) | self.0[i] as u64) >> b;
            v.push(t as u32);
        }
        U::norm(v)
    }
    /// Knuth D; panics on zero divisor
    pub fn divrem(&self, d: &U) -> (U, U) {
        assert!(!d.is_zero(), "refint: zero divisor");
        if self.lt(d) {
            return (U::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let y = d.0[0] as u64;
            let mut q = vec![0u32; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                let t = (r << 32) | self.0[i] as u64;
                q[i] = (t / y) as u32;
                r = t % y;
            }
            return (U::norm(q), U::from_u64(r));
        }
        let s = d.0.last().unwrap().leading_zeros() as usize;
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        while u.len() < self.0.len() + 1 {
            u.push(0);
        }
        let (n, m) = (v.len(), u.len() - v.len() - 1);
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= 1 << 32 {
                    break;
                }
            }
            let (mut b, mut c) = (0i64, 0u64);
            for i in 0..n {
                let p = qh * v[i] as u64 + c;
                c = p >> 32;
                let mut t = u[i + j] as i64 - b - (p as u32) as i64;
                b = 0;
                if t < 0 {
                    t += 1 << 32;
                    b = 1;
                }
                u[i + j] = t as u32;
            }
            let mut t = u[j + n] as i64 - b - c as i64;
            let neg = t < 0;
            if neg {
                t += 1 << 32;
            }
            u[j + n] = t as u32;
            if neg {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (U::norm(q), U::norm(u).shr(s))
    }
    pub fn div(&self, d: &U) -> U {
        self.divrem(d).0
    }
    pub fn rem(&self, d: &U) -> U {
        self.divrem(d).1
    }
    fn bitop(&self, o: &U, f: impl Fn(u32, u32) -> u32) -> U {
        let n = self.0.len().max(o.0.len());
        U::norm((0..n).map(|i| f(*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0))).collect())
    }
    pub fn and(&self, o: &U) -> U {
        self.bitop(o, |a, b| a & b)
    }
    pub fn or(&self, o: &U) -> U {
        self.bitop(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &U) -> U {
        self.bitop(o, |a, b| a ^ b)
    }
    pub fn and_not(&self, o: &U) -> U {
        self.bitop(o, |a, b| a & !b)
    }
    pub fn pow(&self, mut e: u32) -> U {
        let (mut r, mut b) = (U::from_u64(1), self.clone());
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn powmod(&self, e: &U, m: &U) -> U {
        let mut r = U::from_u64(1).rem(m);
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&b).rem(m);
            }
        }
        r
    }
    /// the inverse modulo m, if there is one
    pub fn inverse(&self, m: &U) -> Option<U> {
        let mi = I::pos(m.clone());
        let (mut r0, mut r1) = (mi.clone(), I::pos(self.rem(m)));
        let (mut t0, mut t1) = (I::from_i64(0), I::from_i64(1));
        while !r1.m.is_zero() {
            let q = r0.div(&r1);
            let (r2, t2) = (r0.sub(&q.mul(&r1)), t0.sub(&q.mul(&t1)));
            r0 = std::mem::replace(&mut r1, r2);
            t0 = std::mem::replace(&mut t1, t2);
        }
        if r0.m.is_one() { Some(t0.rem_euclid(&mi).m) } else { None }
    }
    pub fn gcd(&self, o: &U) -> U {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn isqrt(&self) -> U {
        if self.is_zero() {
            return U::zero();
        }
        // bit by bit
        let mut r = U::zero();
        for i in (0..=(self.bits() / 2)).rev() {
            let t = r.add(&U::from_u64(1).shl(i));
            if !self.lt(&t.mul(&t)) {
                r = t;
            }
        }
        r
    }
    pub fn trailing_zeros(&self) -> usize {
        let mut n = 0;
        for &x in &self.0 {
            if x == 0 {
                n += 32
            } else {
                return n + x.trailing_zeros() as usize;
            }
        }
        n
    }
    pub fn hex(&self) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        let mut s = format!("{:x}", self.0.last().unwrap());
        for x in self.0.iter().rev().skip(1) {
            s.push_str(&format!("{:08x}", x));
        }
        s
    }
    pub fn to_u64(&self) -> Option<u64> {
        match self.0.len() {
            0 => Some(0),
            1 => Some(self.0[0] as u64),
            2 => Some(self.0[0] as u64 | (self.0[1] as u64) << 32),
            _ => None,
        }
    }
    /// strong probable prime to base a
    fn sprp(&self, a: u64) -> bool {
        if let Some(n) = self.to_u64() {
            let (mut d, t) = ((n - 1) >> (n - 1).trailing_zeros(), (n - 1).trailing_zeros());
            let (mut x, mut b) = (1u64, a % n);
            if b == 0 {
                return true;
            }
            let mulm = |x: u64, y: u64| (x as u128 * y as u128 % n as u128) as u64;
            while d > 0 {
                if d & 1 == 1 {
                    x = mulm(x, b);
                }
                b = mulm(b, b);
                d >>= 1;
            }
            if x == 1 || x == n - 1 {
                return true;
            }
            for _ in 1..t {
                x = mulm(x, x);
                if x == n - 1 {
                    return true;
                }
            }
            return false;
        }
        let one = U::from_u64(1);
        let nm1 = self.sub(&one);
        let t = nm1.trailing_zeros();
        let d = nm1.shr(t);
        let a = U::from_u64(a).rem(self);
        if a.is_zero() {
            return true;
        }
        let mut x = a.powmod(&d, self);
        if x.is_one() || x == nm1 {
            return true;
        }
        for _ in 1..t {
            x = x.mul(&x).rem(self);
            if x == nm1 {
                return true;
            }
        }
        false
    }
    /// deterministic below 3.3e24, otherwise 24 fixed prime bases plus the Lucas test below
    pub fn is_prime(&self) -> bool {
        const P: [u64; 24] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89];
        if self.bits() <= 1 {
            return false;
        }
        for &p in &P {
            let p = U::from_u64(p);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        let small = self.bits() <= 81;
        let bases = if small { &P[..13] } else { &P[..] };
        bases.iter().all(|&b| self.sprp(b)) && (small || self.is_aes_lucas())
    }
    /// Jacobi symbol (a/n), n odd
    pub fn jacobi(a: &U, n: &U) -> i32 {
        let (mut a, mut n, mut j) = (a.rem(n), n.clone(), 1);
        while !a.is_zero() {
            let t = a.trailing_zeros();
            a = a.shr(t);
            let n8 = n.0[0] & 7;
            if t & 1 == 1 && (n8 == 3 || n8 == 5) {
                j = -j;
            }
            if a.0[0] & 3 == 3 && n.0[0] & 3 == 3 {
                j = -j;
            }
            std::mem::swap(&mut a, &mut n);
            a = a.rem(&n);
        }
        if n.is_one() {
            j
        } else {
            0
        }
    }
    /// "almost extra strong" Lucas probable prime test (Baillie-OEIS method C), odd n > 2
    pub fn is_aes_lucas(&self) -> bool {
        let n = self;
        let sq = n.isqrt();
        if sq.mul(&sq) == *n {
            return false;
        }
        let mut p = 3u64;
        loop {
            let d = U::from_u64(p * p - 4);
            let j = U::jacobi(&d, n);
            if j == -1 {
                break;
            }
            if j == 0 {
                let p2 = U::from_u64(p + 2);
                return *n == p2;
            }
            p += 1;
        }
        let one = U::from_u64(1);
        let two = U::from_u64(2);
        let s0 = n.add(&one);
        let r = s0.trailing_zeros();
        let s = s0.shr(r);
        let up = U::from_u64(p).rem(n);
        let subm = |a: &U, b: &U| a.add(n).sub(&b.rem(n)).rem(n);
        let (mut vk, mut vk1) = (two.rem(n), up.clone());
        for i in (0..s.bits()).rev() {
            let t = subm(&vk.mul(&vk1).rem(n), &up);
            if s.bit(i) {
                vk1 = subm(&vk1.mul(&vk1).rem(n), &two);
                vk = t;
            } else {
                vk = subm(&vk.mul(&vk).rem(n), &two);
                vk1 = t;
            }
        }
        let nm2 = n.sub(&two);
        if vk == two || vk == nm2 {
            // U(s) == 0  <=>  2 V(s+1) == P V(s)
            if subm(&vk.mul(&up).rem(n), &vk1.mul(&two).rem(n)).is_zero() {
                return true;
            }
        }
        for _ in 0..r.saturating_sub(1) {
            if vk.is_zero() {
                return true;
            }
            if vk == two {
                return false;
            }
            vk = subm(&vk.mul(&vk).rem(n), &two);
        }
        false
    }
}

/// signed
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct I {
    pub neg: bool,
    pub m: U,
}

/// n/d (positive) rounded to the nearest machine float of `prec` bits, ties to even, with subnormals below
/// 2^emin and infinity from 2^(1-emin+1) on; and whether that is exact
pub fn nearest(n: &U, d: &U, prec: i64, emin: i64) -> (f64, bool) {
    if n.is_zero() {
        return (0.0, true);
    }
    let s = prec + 3 - (n.bits() as i64 - d.bits() as i64);
    let (a, b) = if s >= 0 { (n.shl(s as usize), d.clone()) } else { (n.clone(), d.shl(-s as usize)) };
    let (q, r) = a.divrem(&b);
    let q = q.to_u64().unwrap();
    let top = 63 - q.leading_zeros() as i64 - s;
    // exponent of the last bit that is kept
    let mut last = (top - (prec - 1)).max(emin - (prec - 1));
    let drop = (last + s) as u32;
    let (mut m, lost, half) = if drop > 62 { (0, q != 0, false) } else { (q >> drop, q & ((1 << drop) - 1) != 0, drop > 0 && q >> (drop - 1) & 1 == 1) };
    let below = drop > 0 && drop <= 62 && q & ((1 << (drop - 1)) - 1) != 0 || !r.is_zero();
    if half && (below || m & 1 == 1) {
        m += 1;
    }
    let exact = !lost && r.is_zero();
    if m >> prec != 0 {
        m >>= 1;
        last += 1;
    }
    if m != 0 && 63 - m.leading_zeros() as i64 + last > 1 - emin {
        return (f64::INFINITY, false);
    }
    let mut f = m as f64;
    for _ in 0..last.unsigned_abs() {
        f *= if last < 0 { 0.5 } else { 2.0 };
    }
    (f, exact)
}
#[cfg(test)]
mod nearest_tests {
    use super::*;
    #[test]
    fn against_the_machine() {
        let mut r = crate::prng::Prng::new(5);
        for i in 0..200000u64 {
            // numerator and denominator that machine floats hold exactly: their quotient is correctly rounded
            let (a, b) = (r.u64() >> (11 + i % 50), (r.u64() >> (11 + r.below(50))) | 1);
            let (f, _) = nearest(&U::from_u64(a), &U::from_u64(b), 53, -1022);
            assert_eq!(f.to_bits(), (a as f64 / b as f64).to_bits(), "{} {}", a, b);
            let (a, b) = (a & 0xff_ffff, b & 0xff_ffff);
            let (f, _) = nearest(&U::from_u64(a), &U::from_u64(b), 24, -126);
            assert_eq!((f as f32).to_bits(), (a as f32 / b as f32).to_bits(), "{} {}", a, b);
        }
        // subnormals: m * 2^-1074 and a half between two of them
        for m in [0u64, 1, 2, 3, 1 << 20, (1 << 52) - 1, 1 << 52, (1 << 53) - 1] {
            let d = U::from_u64(1).shl(1074);
            assert_eq!(nearest(&U::from_u64(m), &d, 53, -1022), (f64::from_bits(if m >> 52 == 0 { m } else { m.min((1 << 53) - 1) }), true));
            assert_eq!(nearest(&U::from_u64(2 * m + 1), &d.shl(1), 53, -1022).0.to_bits(), if m >> 53 == 0 { m + (m & 1) } else { 0 });
        }
        assert_eq!(nearest(&U::from_u64(1).shl(1024), &U::from_u64(1), 53, -1022).0, f64::INFINITY);
        assert_eq!(nearest(&U::from_u64(1).shl(1023), &U::from_u64(1), 53, -1022), (f64::from_bits(0x7fe << 52), true));
        assert_eq!(nearest(&U::from_u64(1), &U::from_u64(1).shl(1500), 53, -1022), (0.0, false));
    }
}

impl I {
    pub fn new(neg: bool, m: U) -> I {
        I { neg: neg && !m.is_zero(), m }
    }
    pub fn pos(m: U) -> I {
        I { neg: false, m }
    }
    pub fn from_i64(x: i64) -> I {
        I::new(x < 0, U::from_u64(x.unsigned_abs()))
    }
    pub fn neg(&self) -> I {
        I::new(!self.neg, self.m.clone())
    }
    pub fn add(&self, o: &I) -> I {
        if self.neg == o.neg {
            I::new(self.neg, self.m.add(&o.m))
        } else if self.m.lt(&o.m) {
            I::new(o.neg, o.m.sub(&self.m))
        } else {
            I::new(self.neg, self.m.sub(&o.m))
        }
    }
    pub fn sub(&self, o: &I) -> I {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &I) -> I {
        I::new(self.neg != o.neg, self.m.mul(&o.m))
    }
    /// truncating
    pub fn div(&self, o: &I) -> I {
        I::new(self.neg != o.neg, self.m.div(&o.m))
    }
    pub fn rem(&self, o: &I) -> I {
        I::new(self.neg, self.m.rem(&o.m))
    }
    pub fn rem_euclid(&self, o: &I) -> I {
        let r = self.rem(o);
        if r.neg {
            r.add(&I::pos(o.m.clone()))
        } else {
            r
        }
    }
    pub fn div_euclid(&self, o: &I) -> I {
        self.sub(&self.rem_euclid(o)).div(o)
    }
    pub fn shl(&self, n: usize) -> I {
        I::new(self.neg, self.m.shl(n))
    }
    /// floor
    pub fn shr(&self, n: usize) -> I {
        let q = self.m.shr(n);
        if self.neg && q.shl(n) != self.m {
            I::new(true, q.add(&U::from_u64(1)))
        } else {
            I::new(self.neg, q)
        }
    }
    fn twos(&self, w: usize) -> Vec<u32> {
        let mut v = self.m.0.clone();
        v.resize(w, 0);
        if self.neg {
            let mut c = 1u64;
            for x in v.iter_mut() {
                let t = (!*x) as u64 + c;
                *x = t as u32;
                c = t >> 32;
            }
        }
        v
    }
    fn untwos(v: Vec<u32>) -> I {
        if v.last().map_or(false, |x| x >> 31 == 1) {
            let mut c = 1u64;
            let w = v
                .iter()
                .map(|x| {
                    let t = (!*x) as u64 + c;
                    c = t >> 32;
                    t as u32
                })
                .collect();
            I::new(true, U::norm(w))
        } else {
            I::new(false, U::norm(v))
        }
    }
    fn bitop(&self, o: &I, f: impl Fn(u32, u32) -> u32) -> I {
        let w = self.m.0.len().max(o.m.0.len()) + 2;
        let (a, b) = (self.twos(w), o.twos(w));
        I::untwos((0..w).map(|i| f(a[i], b[i])).collect())
    }
    pub fn and(&self, o: &I) -> I {
        self.bitop(o, |a, b| a & b)
    }
    pub fn or(&self, o: &I) -> I {
        self.bitop(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &I) -> I {
        self.bitop(o, |a, b| a ^ b)
    }
    pub fn and_not(&self, o: &I) -> I {
        self.bitop(o, |a, b| a & !b)
    }
    pub fn not(&self) -> I {
        self.add(&I::from_i64(1)).neg()
    }
    pub fn cmp(&self, o: &I) -> Ordering {
        match (self.neg, o.neg) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => self.m.cmp(&o.m),
            (true, true) => o.m.cmp(&self.m),
        }
    }
    pub fn hex(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.m.hex())
    }
}
