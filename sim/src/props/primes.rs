//! C05, C06: prime generation and primality verdicts under adversarial words and failing sources.
use crate::core::*;
use crate::prng::{mix, Prng};
use crate::refint::U;
use crate::simrng::{prefix, Faults, SimRng};
use rmath::bigint::Nat;

// ------------------------------------------------------------------------------------- C05
pub const OPS5: &[&str] = &["source", "generate", "recheck"];

fn gen_src(r: &mut Prng) -> Vec<u64> {
    let kind = if r.chance(1, 2) { 0 } else { r.below(11) };
    let mut a = vec![kind, if r.chance(1, 3) { 0 } else { r.below(65) }, r.u64() >> 20, r.below(8), r.below(5)];
    a.extend(Faults::gen(r));
    a
}

fn gen5(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 3);
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        p.push(Step { task: t as u32, op: 0, a: gen_src(r) });
        for _ in 0..r.range(1, if thorough { 6 } else { 3 }) {
            if r.chance(1, 4) {
                p.push(Step { task: t as u32, op: 0, a: gen_src(r) });
            }
            let bits = match r.below(10) {
                0 => r.below(3),
                1 | 2 => r.range(2, 12),
                3 | 4 => *r.pick(&[7, 15, 16, 31, 32, 33, 34, 47, 63, 64, 65, 66, 95, 96, 97, 98]),
                5 | 6 | 7 => r.range(2, 80),
                8 => r.range(64, if thorough { 200 } else { 130 }),
                _ => r.range(2, 40),
            };
            let bits = if r.chance(1, 200) { *r.pick(&[159, 160, 161, 192, 224, 255, 256, 257, 288, 319, 320, 384, 385, 447, 511, 512, 513, 544]) + r.below(2) } else { bits };
            let rounds = match r.below(14) {
                0 | 1 => r.range(16, 20),
                2 if bits < 50 => *r.pick(&[31, 32, 50, 64, 100, 128]),
                3 => r.range(4, 16),
                _ => r.below(4),
            };
            p.push(Step { task: t as u32, op: 1, a: vec![bits, rounds, r.below(4)] });
            if r.chance(1, 2) {
                p.push(Step { task: t as u32, op: 2, a: vec![] });
            }
        }
        progs.push(p);
    }
    Plan { cfg: vec![], steps: super::interleave(r, progs) }
}

fn source(s: &Step, limbs: &[u32]) -> SimRng {
    let p = prefix(s.arg(0), s.arg(1), s.arg(2), limbs);
    let f = if s.arg(3) == 0 { Faults::none() } else { Faults::from_args(&s.a[5.min(s.a.len())..]) };
    SimRng::new(p, s.arg(2), f, 0)
}

/// a copy of the source that delivers the same words and never fails
fn healthy(s: &SimRng, budget: u64) -> SimRng {
    let mut c = s.clone();
    c.faults = Faults::none();
    c.calls = 0;
    c.failed = 0;
    c.budget = budget;
    c
}

fn exec5(plan: &Plan, cx: &mut Cx) -> Check {
    let mut srcs: Vec<SimRng> = vec![];
    let mut live: Vec<(Nat, Vec<u32>)> = vec![];
    for s in &plan.steps {
        cx.sched(s);
        match s.op {
            0 => srcs.push(source(s, live.last().map_or(&[1u32][..], |x| &x.1))),
            1 => {
                if srcs.is_empty() {
                    continue;
                }
                let (bits, rounds) = ((s.arg(0) % 1100) as usize, (s.arg(1) % 300) as usize);
                let si = srcs.len() - 1 - s.idx(2, srcs.len());
                let len = (bits as u64 + 31) / 32;
                let src = &mut srcs[si];
                let allow = (src.prefix.len() as u64).saturating_sub(src.words) + 6000 * len.max(1);
                let adversarial = src.words < src.prefix.len() as u64;
                src.budget = src.words + allow;
                let mut clean = healthy(src, allow);
                let (w0, f0) = (src.words, src.failed);
                let r = must("generate_prime", || Nat::generate_prime(bits, rounds, src))?;
                let (fails, used) = (src.failed - f0, src.words - w0);
                cx.faultn("source_error", fails);
                let rr = must("generate_prime", || Nat::generate_prime(bits, rounds, &mut clean))?;
                cx.check();
                match (r, rr) {
                    (Err(_), Err(_)) => {
                        ensure!(bits < 2, "refused", "generating a prime of {} bits was refused", bits);
                        cx.probe("too_small_refused");
                    }
                    (Ok(p), Ok(q)) => {
                        ensure!(bits >= 2, "not-refused", "a prime of {} bits was generated: {:?}", bits, p.as_ref());
                        let l = p.as_ref().to_vec();
                        let u = U::from_limbs(&l);
                        cx.say(|| format!("task {}: {} bits, {} rounds -> {}; {} words, {} failures", s.task, bits, rounds, u.hex(), used, fails));
                        ensure!(!p.is_nan() && (l.len() == 1 || l.last() != Some(&0)), "malformed", "the prime of {} bits is {:x?}", bits, l);
                        ensure!(u.bits() == bits, "wrong-size", "asked for {} bits, got {} bits: {}", bits, u.bits(), u.hex());
                        ensure!(u.bit(bits - 2), "top-bits", "the second highest bit of {} is not set", u.hex());
                        if !u.is_prime() {
                            // only words that defeat the randomised test may let a Lucas pseudoprime through
                            let excused = u.is_odd() && u.is_aes_lucas() && (adversarial || rounds < 16);
                            ensure!(excused, "not-prime", "generated {} ({} bits, {} rounds), which is composite", u.hex(), bits, rounds);
                            cx.probe("lucas_pseudoprime_excused");
                        }
                        ensure!(q.as_ref() == p.as_ref(), "not-transparent", "{} bits: {} with {} failures, {} on the same words without", bits, u.hex(), fails, U::from_limbs(q.as_ref()).hex());
                        ensure!(used == clean.words - w0, "words-lost", "{} bits: {} words used with {} failures, {} without", bits, used, fails, clean.words - w0);
                        if fails > 0 {
                            cx.probe("generated_under_failures");
                        }
                        cx.obs_limbs(&l);
                        live.push((p, l));
                    }
                    (a, _) => ensure!(false, "not-transparent", "{} bits: {} with failures and the opposite without", bits, if a.is_ok() { "a prime" } else { "an error" }),
                }
            }
            2 => {
                // use an earlier prime: the verdict on it, and its storage, must stay good
                if let Some((p, l)) = live.first() {
                    let mut g = SimRng::new(vec![], mix(l[0] as u64, 5), Faults::none(), 100000);
                    let ok = must("probably_prime_test", || p.probably_prime_test(2, &mut g))?;
                    ensure!(ok, "verdict", "{} was generated as a prime and is now reported composite", U::from_limbs(l).hex());
                }
            }
            _ => {}
        }
        for (p, l) in &live {
            ensure!(p.as_ref() == &l[..], "disturbed", "an earlier prime changed from {:x?} to {:x?}", l, p.as_ref());
        }
        if srcs.len() > 4 {
            srcs.remove(0);
        }
    }
    Ok(())
}

pub const C05: PropDef = PropDef {
    id: "C05", ops: OPS5, gen: gen5, exec: exec5, builds: &[("native", 1), ("portable", 1)], quick: 24000, thorough: 600000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one generation was judged by the reference primality test and by the fault-free generation on the same words, and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Nat::generate_prime", "Nat::probably_prime_test", "Iter", "all arithmetic beneath"],
    stub: &["caller's random source (scripted words and failures)"],
    assumptions: &["reference primality: deterministic below 2^81, 24 strong tests and a Lucas test above", "bounded means at most 6000 draws of the size of the prime after the adversarial start of the stream", "a Lucas pseudoprime is excused when the words were adversarial or fewer than 16 rounds were asked for"],
    must_reach: &["source_error", "generated_under_failures", "too_small_refused"],
};

// ------------------------------------------------------------------------------------- C06
pub const OPS6: &[&str] = &["source", "test", "test_small", "share"];

const PRIMES: &[&str] = &[
    "ffffffff00000001",                                                 // 2^64 - 2^32 + 1
    "7fffffff",                                                         // 2^31 - 1
    "1fffffffffffffff",                                                 // 2^61 - 1
    "1ffffffffffffffffffffff",                                          // 2^89 - 1
    "7ffffffffffffffffffffffffff",                                      // 2^107 - 1
    "7fffffffffffffffffffffffffffffff",                                 // 2^127 - 1
    "10001",                                                            // Fermat
    "fffffffb",                                                         // below 2^32
    "10000000f",                                                        // above 2^32
    "ffffffffffffffc5",                                                 // below 2^64
    "1000000000000000d",                                                // above 2^64
    "ffffffffffffffffffffff17",                                         // below 2^96
    "ffffffffffffffffffffffffffffff61",                                 // below 2^128
    "ffffffffffffffffffffffffffffffff000000000000000000000001",         // P-224
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", // P-256
    "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", // 2^255 - 19
    "fffffffffffffffffffffffffffffffeffffffffffffffff",                 // P-192
    "c0000001", "50000001", "78000001", "f00000000000001", "3a00000000000001",
];
/// beyond the words a machine holds: 2^521-1, 2^607-1, 2^1279-1, P-384, 2^448-2^224-1, 2^414-17
fn large_prime(k: u64) -> U {
    let one = U::from_u64(1);
    let p2 = |n: usize| one.shl(n);
    match k % 7 {
        0 => p2(521).sub(&one),
        1 => p2(607).sub(&one),
        2 => p2(384).sub(&p2(128)).sub(&p2(96)).add(&p2(32)).sub(&one),
        3 => p2(448).sub(&p2(224)).sub(&one),
        4 => p2(414).sub(&U::from_u64(17)),
        5 => p2(255).sub(&U::from_u64(19)),
        _ => p2(1279).sub(&one),
    }
}
/// composites: strong pseudoprimes to small bases, Carmichael numbers, Lucas pseudoprimes
const COMPOSITES: &[u64] = &[
    2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001, 3215031751, 2152302898747,
    3474749660383, 341550071728321, 3825123056546413051, 318665857834031151,
    561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 41041, 62745, 63973, 75361, 101101, 126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561,
    399001, 410041, 449065, 488881, 512461, 56052361, 118901521, 172947529, 216821881, 228842209, 1299963601, 2301745249, 9624742921, 11346205609, 13079177569,
    989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077, 100127, 113573, 125249, 137549, 137801, 153931, 155819,
    323, 377, 1159, 1829, 3827, 5459, 5777, 9071, 9179, 10877, 11419, 11663, 13919, 14839, 16109, 16211, 18407, 18971, 19043,
    4294967297, 18446744073709551615, 4294967295, 9, 25, 15, 21, 1, 0,
];

/// Lucas pseudoprimes p(k(p+1)+1) of up to 402 bits: only the randomised rounds see that they are composite
const LUCAS: &[&str] = &[
    "1333c4fe1",
    "90c37fdf",
    "186504463bc17",
    "cbd919dfc59d",
    "1f309c2e7e6a1b2c3",
    "1570828576ae092cb",
    "6fd78baba7620b697",
    "27add50ad80473255",
    "32f1b8717835c6467a723",
    "a37f70bcb0020474d14b",
    "9ee17f5f3dd7fe630e7d54c3",
    "1a27e9e98486f4484b29a93dd",
    "1d87667cf3bb6c8fc4ee2a313206b4087",
    "199e74d9147595971a5f02be00e90782d",
    "e56d13e0a242cd46469c07ec1b7804f9b",
    "deab499fc9af41146fe5a00a85ce615a7",
    "804dbca7f21970d3e56c73e1c85344c25d34678b",
    "2087fe292d5596cceb766ca9a86b75e594e60b965",
    "141c324d4d3d492be63c77868fa587d7c97a5099d90f5a73d",
    "1342a61bbd6e1d66df52925228ed3be8aebef269ddda5fb63",
    "5bc97c185a1722048f163462f82703ab745d3cd9f368cd85f677e010b",
    "1b6110154430c8ffb86f2d54e4ac8bea8f2a0e1fe4131fa30cf3895d1",
    "1f1ec29b3df993e9a478deb58147ec2c73b8409e3b4a26be2e9d4ca4888287bd5",
    "1ea5e111c0cbc12879933f2316659a3c0788622be96d27d871a2e512705c1558d",
    "18307c94c15999281e5532bae34bbb85dda7496b3b61deadc19b2d2c35f1dbd45107e86ffa2c45415",
    "3c3b38d003a3119e2fcd8e135cde996b79938754463f0f677e24a1350c512d3c6cd7e88449e31e33f",
    "127bee8538a5d7d8e1ba96abe2f6f1b624c0d46bb0a0965cf38c1ef159569789a57b1cf71e7d41c96faea1c49d28734b3",
    "5bc66eb4139bbef6341c641640e717facc8c79d8d07d48c3c8cdb5bf098e9d32db11d0c8dd49797938f8c42bb2261b75b",
    "1c6790be02ed97967047362c870b43d5cff9bc16ca010d5eda4d883c191500f6813916df57e53091d3cf61233fc059064e0a3",
    "2700b2518fecb0fd51334aea0a3927bcee5cd476c9f57e772eb2d0ade93ebcc4546caec4d6763b57adb820b28856fde511687",
];

thread_local!(static KNOWN: std::cell::RefCell<std::collections::HashMap<Vec<u32>, (bool, bool)>> = Default::default());
/// (prime, Lucas probable prime); the costly answers about large numbers are kept
fn known(c: &U) -> (bool, bool) {
    let f = || {
        let p = c.is_prime();
        (p, p || c.is_odd() && c.bits() > 2 && c.is_aes_lucas())
    };
    if c.bits() < 130 {
        return f();
    }
    let l = c.lib_limbs();
    if let Some(v) = KNOWN.with(|k| k.borrow().get(&l).copied()) {
        return v;
    }
    let v = f();
    KNOWN.with(|k| k.borrow_mut().insert(l, v));
    v
}

/// candidate number `kind`
fn candidate(kind: u64, seed: u64) -> U {
    let mut r = Prng::new(seed);
    let small_prime = |r: &mut Prng, bits: u64| loop {
        let x = (r.u64() >> (64 - bits)) | 1 | 1 << (bits - 1);
        let u = U::from_u64(x);
        if u.is_prime() {
            return u;
        }
    };
    let one = U::from_u64(1);
    match kind % 15 {
        0 => U::parse_hex(PRIMES[r.below(PRIMES.len() as u64) as usize]),
        1 => U::from_u64(COMPOSITES[r.below(COMPOSITES.len() as u64) as usize]),
        2 => {
            let b = r.range(2, 63);
            small_prime(&mut r, b)
        }
        3 => {
            let (a, b) = (r.range(5, 40), r.range(5, 40)); // semiprime
            let (p, q) = (small_prime(&mut r, a), small_prime(&mut r, b));
            p.mul(&q)
        }
        4 => {
            // p (2p - 1), both prime: many strong liars
            for _ in 0..400 {
                let b = r.range(6, 30);
                let p = small_prime(&mut r, b);
                let q = p.add(&p).sub(&one);
                if q.is_prime() {
                    return p.mul(&q);
                }
            }
            U::from_u64(2047)
        }
        5 => {
            let b = r.range(2, 33); // square of a prime
            let p = small_prime(&mut r, b);
            p.mul(&p)
        }
        6 => {
            // Carmichael (6k+1)(12k+1)(18k+1)
            for _ in 0..3000 {
                let e = r.range(4, 17);
                let k = r.range(1, 1 << e);
                let (a, b, c) = (U::from_u64(6 * k + 1), U::from_u64(12 * k + 1), U::from_u64(18 * k + 1));
                if a.is_prime() && b.is_prime() && c.is_prime() {
                    return a.mul(&b).mul(&c);
                }
            }
            U::from_u64(1729)
        }
        7 => U::from_u64(r.below(400)),
        8 => {
            let l = r.range(1, 5); // anything odd
            let mut v: Vec<u32> = (0..l).map(|_| r.spicy32()).collect();
            v[0] |= 1;
            U::norm(v)
        }
        9 => {
            let p = U::parse_hex(PRIMES[r.below(PRIMES.len() as u64) as usize]); // next to a prime
            if r.chance(1, 2) { p.add(&U::from_u64(2)) } else { p.sub(&U::from_u64(2)) }
        }
        10 => {
            let l = r.range(1, 4); // even
            let mut v: Vec<u32> = (0..l).map(|_| r.spicy32()).collect();
            v[0] &= !1;
            U::norm(v)
        }
        12 => {
            let p = large_prime(r.below(6));
            match r.below(6) {
                0 => p.mul(&p),
                1 => p.add(&U::from_u64(2 * r.below(20))),
                2 => p.mul(&U::parse_hex(PRIMES[r.below(PRIMES.len() as u64) as usize])),
                3 if r.chance(1, 20) => large_prime(6),
                _ => p,
            }
        }
        13 => {
            // powers and products of primes of one or two words
            let p = U::parse_hex(PRIMES[r.below(PRIMES.len() as u64) as usize]);
            match r.below(4) {
                0 => p.mul(&p),
                1 => p.mul(&p).mul(&p),
                _ => {
                    let b = r.range(40, 63);
                    p.mul(&small_prime(&mut r, b))
                }
            }
        }
        14 => {
            const SMALL: [u64; 12] = [10877, 27971, 29681, 30739, 75077, 162133, 2211631, 1367209, 459191, 218321, 31622993, 32922401];
            if r.chance(1, 3) { U::from_u64(*r.pick(&SMALL)) } else { U::parse_hex(LUCAS[r.below(LUCAS.len() as u64) as usize]) }
        }
        _ => {
            // k 2^m + 1 with large m: long chains of squarings
            let m = r.range(8, 90);
            for _ in 0..60 {
                let k = U::from_u64(1 + 2 * r.below(1 << 20));
                let n = k.shl(m as usize).add(&one);
                if n.is_prime() {
                    return n;
                }
            }
            U::from_u64(7).shl(m as usize).add(&one)
        }
    }
}

fn gen6(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 3);
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mut st = |op: u32, a: Vec<u64>| p.push(Step { task: t as u32, op, a });
        for _ in 0..r.range(2, if thorough { 16 } else { 6 }) {
            let rounds = match r.below(8) {
                0 => 16 + r.below(4),
                1 => r.range(3, 8),
                _ => r.below(3),
            };
            match r.below(12) {
                0 => st(2, vec![r.below(1 << 16)]),
                1 => st(3, vec![r.below(8)]),
                _ => {
                    let kind = if r.chance(1, 300) { 12 } else if r.chance(1, 25) { 13 } else { r.below(12) };
                    let mut a = vec![kind, r.u64() >> 24, rounds];
                    if r.chance(1, 14) {
                        // a Lucas pseudoprime; words that pass the first rounds whatever is tested, then
                        // at least sixteen honest rounds
                        a[0] = 14;
                        let spoilt = r.below(4) * candidate(14, a[1]).0.len() as u64;
                        a[2] = 16 + spoilt + if r.chance(1, 4) { *r.pick(&[1, 4, 15, 84, 200, 240, 241, 260, 484, 1000]) } else { 0 };
                        a.extend([1, spoilt, r.u64() >> 20, r.below(8), r.below(5)]);
                        a.extend(Faults::gen(r));
                        st(1, a);
                        continue;
                    }
                    a.extend(gen_src(r));
                    if r.chance(1, 30) {
                        // many rounds, and words chosen against all of them
                        a[2] = *r.pick(&[20, 31, 32, 40, 50, 63, 64, 65, 100, 128, 200, 256]);
                        if r.chance(2, 3) {
                            a[3] = *r.pick(&[1, 1, 2, 4, 7, 9]);
                            a[4] = 1600;
                        }
                    }
                    st(1, a)
                }
            }
        }
        progs.push(p);
    }
    Plan { cfg: vec![], steps: super::interleave(r, progs) }
}

fn exec6(plan: &Plan, cx: &mut Cx) -> Check {
    let mut live: Vec<(Nat, Vec<u32>)> = vec![];
    for s in &plan.steps {
        cx.sched(s);
        match s.op {
            1 => {
                let c = candidate(s.arg(0), s.arg(1));
                let rounds = (s.arg(2) % 2000) as usize;
                let l = c.lib_limbs();
                let sub = Step { task: s.task, op: 0, a: s.a[3.min(s.a.len())..].to_vec() };
                let mut src = source(&sub, &l);
                let allow = src.prefix.len() as u64 + 200 * (rounds as u64 + 2) * l.len() as u64;
                src.budget = allow;
                // every chosen word can spoil one round at most
                let honest = rounds >= 16 + src.prefix.len();
                let mut clean = healthy(&src, allow);
                let n = Nat::from(l.clone());
                let copy = n.deep_clone();
                let v = must("probably_prime_test", || n.probably_prime_test(rounds, &mut src))?;
                cx.faultn("source_error", src.failed);
                cx.check();
                let (prime, lucas) = known(&c);
                cx.say(|| format!("task {}: {} ({}), {} rounds -> {}; {} words, {} failures", s.task, c.hex(), if prime { "prime" } else { "composite" }, rounds, v, src.words, src.failed));
                if prime {
                    ensure!(v, "prime-rejected", "the prime {} is reported composite ({} rounds)", c.hex(), rounds);
                    cx.probe("prime_judged");
                    if src.failed > 0 {
                        cx.probe("prime_judged_under_failures");
                    }
                } else {
                    if honest {
                        ensure!(!v, "composite-accepted", "the composite {} is reported prime by {} rounds, {} words of which were chosen and the others uniform", c.hex(), rounds, src.prefix.len());
                        cx.probe(if src.prefix.is_empty() { "composite_16_rounds" } else { "composite_16_rounds_after_liars" });
                    }
                    if !lucas {
                        ensure!(!v, "composite-accepted", "the composite {} fails the Lucas test and is reported prime ({} rounds)", c.hex(), rounds);
                    } else {
                        cx.probe("lucas_pseudoprime_judged");
                    }
                    cx.probe("composite_judged");
                }
                let vv = must("probably_prime_test", || copy.probably_prime_test(rounds, &mut clean))?;
                ensure!(v == vv && src.words == clean.words, "not-transparent", "{} with {} rounds: {} and {} words with {} failures, {} and {} words without", c.hex(), rounds, v, src.words, src.failed, vv, clean.words);
                cx.obs(v as u64 | src.words << 1);
                live.push((n, l));
                if live.len() > 8 {
                    live.remove(0);
                }
            }
            2 => {
                // a block of small numbers, and not-a-number, with a source that always fails first
                let base = s.arg(0) % (1 << 17);
                for k in 0..24 {
                    let x = base + k;
                    let mut src = SimRng::new(vec![0; 4], x, Faults { mask: 7, cap: 3, ..Faults::none() }, 4000);
                    let v = must("probably_prime_test", || Nat::from(x).probably_prime_test(1, &mut src))?;
                    let u = U::from_u64(x);
                    let prime = u.is_prime();
                    let psp = u.is_odd() && x > 2 && !prime && u.is_aes_lucas();
                    ensure!(v == prime || psp, "small-verdict", "{} is reported {}", x, if v { "prime" } else { "composite" });
                    cx.check();
                }
                let mut src = SimRng::new(vec![], 1, Faults::none(), 100);
                let v = must("probably_prime_test", || Nat::default().probably_prime_test(3, &mut src))?;
                ensure!(!v, "small-verdict", "not-a-number is reported prime");
            }
            3 => {
                if !live.is_empty() {
                    let i = s.idx(0, live.len());
                    let x = (live[i].0.clone(), live[i].1.clone());
                    live.push(x);
                }
            }
            _ => {}
        }
        for (p, l) in &live {
            ensure!(p.as_ref() == &l[..], "disturbed", "a candidate changed from {:x?} to {:x?}", l, p.as_ref());
        }
    }
    Ok(())
}

pub const C06: PropDef = PropDef {
    id: "C06", ops: OPS6, gen: gen6, exec: exec6, builds: &[("native", 1), ("portable", 1)], quick: 48000, thorough: 1200000,
    rule: "one evaluation is one simulated run; it is non-trivial if at least one verdict was compared with the reference and with the fault-free verdict on the same words, and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Nat::probably_prime_test", "Miller-Rabin and Lucas tests", "Iter", "Montgomery exponentiation and all arithmetic beneath"],
    stub: &["caller's random source (scripted words and failures)"],
    assumptions: &["reference primality: deterministic below 2^81, 24 strong tests and a Lucas test above", "the chance that 17 uniform rounds accept a composite (4^-17 or less) is taken as zero"],
    must_reach: &["source_error", "prime_judged", "prime_judged_under_failures", "composite_judged", "lucas_pseudoprime_judged", "composite_16_rounds", "composite_16_rounds_after_liars"],
};
