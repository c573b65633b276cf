//! C15: a history of any of the other worlds is repeated in one process; once its owners have let go of
//! everything, the heap must hold no more than it held after the repetition before.
use super::{engines, fmtw, primes, random, share};
use crate::alloc;
use crate::core::*;
use crate::prng::Prng;

pub const WORLDS: &[&PropDef] = &[&share::C09, &share::C07, &share::C08, &fmtw::C10, &random::C04, &engines::C02, &primes::C06, &primes::C05];

fn gen(r: &mut Prng, t: bool) -> Plan {
    let k = r.weighted(&[40, 12, 14, 10, 12, 8, 3, 1]);
    let mut p = (WORLDS[k].gen)(r, t);
    p.cfg.insert(0, k as u64);
    p
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let w = WORLDS[plan.cfg(0) as usize % WORLDS.len()];
    let sub = Plan { cfg: plan.cfg.get(1..).unwrap_or(&[]).to_vec(), steps: plan.steps.clone() };
    // what the world itself thinks of the values is the business of other properties
    let pass = |keep: Option<&mut Cx>| -> u64 {
        let mut c = Cx::default();
        let abandoned = guard(|| (w.exec)(&sub, &mut c).is_err()).unwrap_or(true);
        crate::simos::reset();
        if let Some(cx) = keep {
            cx.sched = c.sched;
            cx.steps = c.steps;
            cx.sim_ns = c.sim_ns;
            cx.trace = c.trace;
            for (k, n) in &c.faults {
                cx.faultn(k, *n);
            }
            for k in ["source_panic", "sink_panic", "seed_panic", "division_by_zero_panic", "inplace_division_abandoned"] {
                if c.probes.contains_key(k) {
                    cx.probe(k);
                }
            }
            cx.probe(["world_abandoned_calls", "world_values", "world_in_place", "world_failing_sinks", "world_random", "world_generators", "world_primality", "world_primes"][plan.cfg(0) as usize % WORLDS.len()]);
            if abandoned {
                cx.probe("history_cut_short");
            }
        }
        drop(c);
        alloc::live().1
    };
    pass(Some(cx));
    let mut held = [0u64; 4];
    for h in held.iter_mut() {
        *h = pass(None);
        cx.check();
    }
    // a cache that fills up is not a leak: only growth in every repetition is
    if held.windows(2).all(|x| x[1] > x[0]) {
        let last = plan.steps.last().map_or("nothing", |s| w.ops[s.op as usize % w.ops.len()]);
        return violation("memory-not-released", format!("{} bytes more are held after each repetition of a history of {} steps that ends in {}", held[3] - held[2], plan.steps.len(), last));
    }
    Ok(())
}

pub const C15: PropDef = PropDef {
    id: "C15", ops: &[], gen, exec, builds: &[("native", 1), ("portable", 1)], quick: 24000, thorough: 1000000,
    rule: "one evaluation is one history of one of the worlds of the other properties, run five times in one process with the memory held measured after each; it is non-trivial if more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Nat, BigInt, Rat, Float and all operations on them", "linear congruential, Mersenne Twister and subtract-with-carry generators", "Iter, Nat::random, BigInt::random, probably_prime_test, generate_prime", "formatting"],
    stub: &["global allocator (counting)", "random sources, seed sources and sinks that fail or panic at a chosen call or byte"],
    assumptions: &["memory held by a cache that stops growing after three repetitions of a history is not a leak"],
    must_reach: &["world_abandoned_calls", "world_values", "world_in_place", "world_failing_sinks", "world_random", "world_generators", "world_primality", "world_primes", "source_panic", "sink_panic", "division_by_zero_panic"],
};
