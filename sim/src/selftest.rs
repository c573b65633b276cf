//! Checks of the simulator itself against published values; run by setup.
use crate::props::engines::{Model, Par, MT32, MT64};
use crate::refint::{I, U};

fn nth(mut m: Model, n: usize) -> u64 {
    let mut x = 0;
    for _ in 0..n {
        x = m.next();
    }
    x
}

pub fn run() -> i32 {
    let mut bad = 0;
    let mut want = |what: &str, ok: bool| {
        if !ok {
            bad += 1;
            eprintln!("selftest failed: {}", what);
        }
    };
    // the 10000th values required by the C++ standard [rand.predef]
    want("mt19937", nth(Model::new(&Par::Mt(MT32), 5489), 10000) == 4123659995);
    want("mt19937_64", nth(Model::new(&Par::Mt(MT64), 5489), 10000) == 9981545732273789042);
    want("minstd_rand0", nth(Model::new(&Par::Lcg(16807, 0, 2147483647), 1), 10000) == 1043618065);
    want("minstd_rand", nth(Model::new(&Par::Lcg(48271, 0, 2147483647), 1), 10000) == 399268537);
    want("ranlux24_base", nth(Model::new(&Par::Swc(24, 10, 24), 19780503), 10000) == 7937952);
    want("ranlux48_base", nth(Model::new(&Par::Swc(48, 5, 12), 19780503), 10000) == 61839128582725);
    // reference integers
    let mut r = crate::prng::Prng::new(7);
    for _ in 0..4000 {
        let (a, b) = (r.spicy64() as u128 * r.spicy64() as u128, (r.spicy64() as u128) << r.below(40));
        let (ua, ub) = (U::from_u128(a), U::from_u128(b));
        if b != 0 {
            let (q, m) = ua.divrem(&ub);
            want("divrem", q == U::from_u128(a / b) && m == U::from_u128(a % b));
            want("qb+r", q.mul(&ub).add(&m) == ua);
        }
        want("absdiff", ua.absdiff(&ub) == U::from_u128(a.max(b) - a.min(b)));
        want("and_not", ua.and_not(&ub) == U::from_u128(a & !b));
        let s = r.below(128) as u32;
        want("shr", ua.shr(s as usize) == U::from_u128(a >> s));
        let q = ua.isqrt();
        want("isqrt", !ua.lt(&q.mul(&q)) && ua.lt(&q.add(&U::from_u64(1)).pow(2)));
        let (x, y) = (r.u64() as i64 as i128 * (r.below(1 << 40) as i128), r.spicy64() as i64 as i128);
        let f = |z: i128| I::new(z < 0, U::from_u128(z.unsigned_abs()));
        want("i and", f(x).and(&f(y)) == f(x & y));
        want("i or", f(x).or(&f(y)) == f(x | y));
        want("i xor", f(x).xor(&f(y)) == f(x ^ y));
        want("i and_not", f(x).and_not(&f(y)) == f(x & !y));
        want("i not", f(x).not() == f(!x));
        want("i shr", f(x).shr(s as usize % 127) == f(x >> (s % 127)));
        if y != 0 {
            want("i rem", f(x).rem(&f(y)) == f(x % y));
            want("i rem_euclid", f(x).rem_euclid(&f(y)) == f(x.rem_euclid(y)));
            want("i div_euclid", f(x).div_euclid(&f(y)) == f(x.div_euclid(y)));
        }
    }
    let sieve: Vec<u64> = (0..4000u64).filter(|&n| n > 1 && (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0)).collect();
    for n in 0..4000u64 {
        want("is_prime", U::from_u64(n).is_prime() == sieve.contains(&n));
        if n > 2 && n % 2 == 1 && sieve.contains(&n) {
            want("lucas accepts primes", U::from_u64(n).is_aes_lucas());
        }
    }
    let psp: Vec<u64> = (3..40000u64).filter(|n| n % 2 == 1 && U::from_u64(*n).is_aes_lucas() && !U::from_u64(*n).is_prime()).collect();
    want("extra strong Lucas pseudoprimes, OEIS A217719", psp == [989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059]);
    if bad == 0 {
        println!("selftest ok");
        0
    } else {
        2
    }
}
