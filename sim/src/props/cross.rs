//! C16: the same history is run in the build with the processor-specific kernels and in the build with
//! the portable ones. This world only records; the supervisor compares the records of the builds.
use super::{fmtw, primes, share};
use crate::core::*;
use crate::prng::{mix, Prng};

pub const WORLDS: &[&PropDef] = &[&share::C07, &share::C08, &share::C09, &fmtw::C10, &primes::C06, &primes::C05];

fn gen(r: &mut Prng, t: bool) -> Plan {
    let k = r.weighted(&[40, 30, 6, 6, 4, 1]);
    let mut p = match k {
        0 | 1 | 2 => share::gen_cross(r, t),
        _ => (WORLDS[k].gen)(r, t),
    };
    p.cfg.insert(0, k as u64);
    p
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let k = plan.cfg(0) as usize % WORLDS.len();
    let w = WORLDS[k];
    let sub = Plan { cfg: plan.cfg.get(1..).unwrap_or(&[]).to_vec(), steps: plan.steps.clone() };
    cx.probe(["world_values", "world_in_place", "world_abandoned_calls", "world_failing_sinks", "world_primality", "world_primes"][k]);
    // whether the values are right is the business of other properties: how a history ends is recorded
    let end = if k < 3 { share::record(&sub, cx) } else { guard(|| (w.exec)(&sub, cx)).map_or(1, |r| r.map_or_else(|v| v.class.bytes().fold(3, |h, b| mix(h, b as u64)), |_| 2)) };
    cx.obs(end);
    cx.check();
    let t = cx.trace;
    cx.say(|| format!("end {:016x}", t));
    Ok(())
}

pub const C16: PropDef = PropDef {
    id: "C16", ops: &[], gen, exec, builds: &[("native", 1), ("portable", 1)], quick: 60000, thorough: 3000000,
    rule: "one evaluation is one history run in one build; every history is run in both builds with the same plan and all observations (each result and each live value after each step) are compared; it is non-trivial if more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Nat, BigInt, Rat, Float and all operations on them, with the x86 and with the portable kernels", "probably_prime_test, generate_prime", "formatting and parsing"],
    stub: &["owners of the numbers, random sources, seed sources and sinks (the same scripted ones in both builds)"],
    assumptions: &["two configurations are compared: x86_64 with its assembly and AVX2 kernels, and the portable code on the same machine (32-bit and big-endian targets are not simulated)"],
    must_reach: &["world_values", "world_in_place", "world_abandoned_calls", "world_failing_sinks", "world_primality", "world_primes", "rational_result", "float_result"],
};
