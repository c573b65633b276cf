//! The simulated worlds, one or more properties each.
use crate::core::{PropDef, Step};
use crate::prng::Prng;

#[cfg(rmath_portable)]
pub mod clock;
pub mod cross;
pub mod engines;
pub mod fmtw;
#[cfg(rmath_sim)]
pub mod hw;
#[cfg(rmath_sim)]
pub mod iter;
#[cfg(rmath_portable)]
pub mod kernel;
pub mod leak;
pub mod nest;
pub mod primes;
pub mod random;
pub mod share;

pub const ALL: &[PropDef] = &[
    engines::C01,
    engines::C02,
    #[cfg(rmath_sim)]
    iter::C03,
    random::C04,
    primes::C05,
    primes::C06,
    share::C07,
    share::C08,
    share::C09,
    fmtw::C10,
    share::C14,
    leak::C15,
    cross::C16,
    nest::C17,
    #[cfg(rmath_portable)]
    kernel::C11,
    #[cfg(rmath_sim)]
    hw::C12,
    #[cfg(rmath_portable)]
    clock::C13,
];

/// the property decided by comparing the observations of the two builds
pub const CROSS: &str = "C16";

/// name of an operation of a plan
pub fn op_name(p: &PropDef, plan: &crate::core::Plan, s: &Step) -> &'static str {
    if p.id == "C17" {
        return nest::op_name(plan, s);
    }
    ops_of(p, plan).get(s.op as usize).copied().unwrap_or("?")
}
fn ops_of(p: &PropDef, plan: &crate::core::Plan) -> &'static [&'static str] {
    match p.id {
        "C15" => leak::WORLDS[plan.cfg(0) as usize % leak::WORLDS.len()].ops,
        "C16" => cross::WORLDS[plan.cfg(0) as usize % cross::WORLDS.len()].ops,
        _ => p.ops,
    }
}

/// The scheduler: merge the programs of the simulated tasks into one seeded schedule. Three policies:
/// uniform choice per step, bursts of one task, and priorities with a few random change points.
pub fn interleave(r: &mut Prng, progs: Vec<Vec<Step>>) -> Vec<Step> {
    let mut q: Vec<std::collections::VecDeque<Step>> = progs.into_iter().map(|p| p.into()).collect();
    let total: usize = q.iter().map(|x| x.len()).sum();
    let policy = r.below(3);
    let mut prio: Vec<u64> = q.iter().map(|_| r.u64()).collect();
    let changes: Vec<u64> = (0..3).map(|_| r.below(total as u64 + 1)).collect();
    let (mut cur, mut left) = (0usize, 0u64);
    let mut out = Vec::with_capacity(total);
    while out.len() < total {
        let ready: Vec<usize> = (0..q.len()).filter(|&i| !q[i].is_empty()).collect();
        let t = match policy {
            0 => *r.pick(&ready),
            1 => {
                if left == 0 || q[cur].is_empty() {
                    cur = *r.pick(&ready);
                    left = r.range(1, 6);
                }
                left -= 1;
                cur
            }
            _ => {
                if changes.contains(&(out.len() as u64)) {
                    let i = r.below(prio.len() as u64) as usize;
                    prio[i] = r.u64();
                }
                *ready.iter().max_by_key(|&&i| prio[i]).unwrap()
            }
        };
        out.push(q[t].pop_front().unwrap());
    }
    out
}
