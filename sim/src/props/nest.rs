//! C17: histories of independent owners, on threads of their own or nested in the callbacks of each
//! other's calls, go exactly as each of them goes alone.
use super::{engines, fmtw, primes, random, share};
use crate::core::*;
use crate::ensure;
use crate::prng::{mix, Prng};
use crate::sched;

/// the first five can be nested
pub const WORLDS: &[&PropDef] = &[
    &share::C07,
    &fmtw::C10,
    &random::C04,
    &engines::C02,
    &primes::C06,
    &share::C09,
    &engines::C01,
    #[cfg(rmath_sim)]
    &super::iter::C03,
    #[cfg(rmath_sim)]
    &super::hw::C12,
    #[cfg(rmath_portable)]
    &super::kernel::C11,
    #[cfg(rmath_portable)]
    &super::clock::C13,
];

/// what a step of a plan is called: the world of its owner and its operation there
pub fn op_name(plan: &Plan, s: &Step) -> &'static str {
    let own = (s.task >> 4) as usize;
    let at = parts(&plan.cfg);
    at.get(own).and_then(|(k, _)| WORLDS[*k].ops.get(s.op as usize)).copied().unwrap_or("?")
}

/// cfg: mode, seed, distance of the points of interruption, number of owners, then world, length and
/// configuration of each
fn parts(cfg: &[u64]) -> Vec<(usize, Vec<u64>)> {
    let g = |i: usize| cfg.get(i).copied().unwrap_or(0);
    let mut at = 4;
    let mut out = vec![];
    for _ in 0..(g(3) % 9) {
        let (k, n) = (g(at) as usize % WORLDS.len(), (g(at + 1) % 64) as usize);
        out.push((k, (0..n).map(|i| g(at + 2 + i)).collect()));
        at += 2 + n;
    }
    out
}

fn gen(r: &mut Prng, _: bool) -> Plan {
    let nest = r.chance(2, 5);
    let n = if nest { r.range(2, 6) } else { r.range(2, 4) };
    let every = *r.pick(&if nest { [1u64, 2, 5, 20] } else { [2, 8, 30, 150] });
    let mut plan = Plan { cfg: vec![nest as u64, r.u64() >> 20, every, n], steps: vec![] };
    // state hidden behind an interface is met by two calls of the same kind
    let same = r.chance(1, 2).then(|| r.below(if nest { 5 } else { WORLDS.len() as u64 }) as usize);
    for i in 0..n {
        let k = match (same, nest, i) {
            (Some(0), true, 0) => 5,
            (Some(k), ..) => k,
            // the call in progress must make callbacks
            (_, true, 0) => *r.pick(&[1usize, 2, 2, 3, 4, 5]),
            (_, true, _) => r.weighted(&[8, 3, 4, 3, 1]),
            (_, false, _) => {
                let all = [16, 3, 4, 4, 1, 3, 3, 2, 2, 2];
                r.weighted(&all[..WORLDS.len()])
            }
        };
        let mut p = if k == 0 { share::gen_cross(r, false) } else { (WORLDS[k].gen)(r, false) };
        if WORLDS[k].id == "C06" {
            // the long tests are C06's own business
            for s in p.steps.iter_mut().filter(|s| s.op == 1 && s.a.len() > 2) {
                s.a[0] %= 12;
                s.a[2] %= 4;
            }
        }
        p.steps.truncate(if k == 1 { 14 } else { 60 });
        plan.cfg.extend([k as u64, p.cfg.len() as u64]);
        plan.cfg.extend(&p.cfg);
        plan.steps.extend(p.steps.into_iter().map(|s| Step { task: (i as u32) << 4 | s.task & 15, ..s }));
    }
    plan
}

/// one owner's history: what it observed and how it ended
fn go(k: usize, p: &Plan, keep: Option<&mut Cx>) -> (u64, String) {
    let mut c = Cx::default();
    let end = if k == 0 {
        match guard(|| share::record(p, &mut c)) {
            Ok(e) => format!("end {:x}", e),
            Err(e) => e.describe(),
        }
    } else {
        match guard(|| (WORLDS[k].exec)(p, &mut c)) {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(v)) => format!("{}: {}", v.class, v.detail),
            Err(e) => e.describe(),
        }
    };
    if let Some(cx) = keep {
        for (n, x) in &c.faults {
            cx.faultn(n, *x);
        }
        cx.checks += c.checks;
        cx.sim_ns += c.sim_ns;
    }
    (mix(c.trace, end.bytes().fold(7, |h, b| mix(h, b as u64))), end)
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    let own: Vec<(usize, Plan)> = parts(&plan.cfg)
        .into_iter()
        .enumerate()
        .map(|(i, (k, cfg))| (k, Plan { cfg, steps: plan.steps.iter().filter(|s| s.task >> 4 == i as u32).map(|s| Step { task: s.task & 15, ..s.clone() }).collect() }))
        .collect();
    for s in &plan.steps {
        cx.sched(s);
    }
    cx.sched = mix(mix(cx.sched, plan.cfg(1)), plan.cfg(2));
    let alone: Vec<(u64, String)> = own
        .iter()
        .map(|(k, p)| {
            let r = go(*k, p, Some(cx));
            crate::simos::reset();
            cx.obs(r.0);
            r
        })
        .collect();
    for (i, a) in alone.iter().enumerate() {
        cx.say(|| format!("owner {} ({}), alone: {:016x} {}", i, WORLDS[own[i].0].id, a.0, a.1));
    }
    let name = |i: usize| format!("owner {} (a history of {} steps in the world of {})", i, own[i].1.steps.len(), WORLDS[own[i].0].id);
    if plan.cfg(0) % 2 == 0 {
        if own.len() < 2 {
            return Ok(());
        }
        let jobs = own
            .iter()
            .map(|(k, p)| {
                let (k, p) = (*k, p.clone());
                Box::new(move || {
                    let r = go(k, &p, None);
                    crate::simos::reset();
                    r
                }) as Box<dyn FnOnce() -> (u64, String) + Send>
            })
            .collect();
        let ran = sched::threads(plan.cfg(1), plan.cfg(2), 300, jobs);
        cx.faultn("thread_switch", ran.switches);
        if ran.inside > 0 {
            cx.probe("switched_inside_an_operation");
        }
        if ran.switches > ran.inside {
            cx.probe("switched_in_a_callback");
        }
        if ran.free {
            cx.probe("threads_ran_freely");
        }
        for (i, (t, a)) in ran.results.iter().zip(&alone).enumerate() {
            cx.check();
            cx.say(|| format!("owner {} together: {:016x} {}", i, t.0, t.1));
            ensure!(t.0 == a.0, "threads-interfere", "{} goes differently next to {} others on threads of their own: alone \"{}\", together \"{}\"", name(i), own.len() - 1, a.1, t.1);
        }
    } else {
        let Some((outer, inner)) = own.split_first() else { return Ok(()) };
        if inner.iter().any(|x| x.0 > 4) || outer.0 > 6 {
            return Ok(());
        }
        let jobs = inner
            .iter()
            .map(|(k, p)| {
                let (k, p) = (*k, p.clone());
                Box::new(move || go(k, &p, None)) as Box<dyn FnOnce() -> (u64, String)>
            })
            .collect();
        let (o, done) = sched::nested(plan.cfg(1), plan.cfg(2), jobs, || go(outer.0, &outer.1, None));
        cx.faultn("nested_call", done.len() as u64);
        for (j, depth, h, end) in &done {
            cx.check();
            if *depth > 1 {
                cx.probe("nested_in_a_nested_call");
            }
            ensure!(*h == alone[j + 1].0, "nested-call-differs", "{} goes differently inside a callback of another call: alone \"{}\", nested \"{}\"", name(j + 1), alone[j + 1].1, end);
        }
        cx.check();
        ensure!(o.0 == alone[0].0, "nested-call-interferes", "{} goes differently if its callbacks use the library ({} nested calls): alone \"{}\", with them \"{}\"", name(0), done.len(), alone[0].1, o.1);
    }
    Ok(())
}

pub const C17: PropDef = PropDef {
    id: "C17", ops: &[], gen, exec, builds: &[("native", 1), ("portable", 1)], quick: 12000, thorough: 600000,
    rule: "one evaluation is one set of histories of the worlds of the other properties, each run alone and then together, on threads of their own or nested in callbacks; it is non-trivial if more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Nat, BigInt, Rat, Float and all operations on them", "all generators and seed sources of the build, Iter", "Nat::random, BigInt::random, probably_prime_test", "formatting"],
    stub: &["thread scheduler (one thread runs at a time; the turn passes at allocations, releases and callbacks)", "random sources, seed sources, sinks, processor, kernel entropy and clocks: the scripted ones of the other worlds"],
    assumptions: &["a thread is only interrupted where it allocates, releases or calls back: code between two such points runs as a whole"],
    must_reach: &["switched_inside_an_operation", "switched_in_a_callback", "nested_in_a_nested_call"],
};
