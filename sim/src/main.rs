//! Deterministic simulation of rmath: supervisor, workers, minimiser and replay.
mod alloc;
#[macro_use]
mod core;
mod mini;
mod prng;
mod props;
mod refint;
mod sched;
mod selftest;
mod simos;
mod simrng;
mod sup;

#[global_allocator]
static HEAP: alloc::SimAlloc = alloc::SimAlloc;

use crate::core::*;
use prng::{mix, Prng};
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};

#[cfg(rmath_portable)]
pub const BUILD: &str = "portable";
#[cfg(not(rmath_portable))]
pub const BUILD: &str = "native";

pub fn prop(id: &str) -> &'static PropDef {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

pub fn run_seed(seed: u64, prop: &str, build: &str, index: u64) -> u64 {
    let mut h = seed;
    for b in prop.bytes().chain(build.bytes()) {
        h = mix(h, b as u64);
    }
    mix(h, index)
}

pub fn make_plan(p: &PropDef, seed: u64, build: &str, index: u64, thorough: bool) -> Plan {
    // a property about the agreement of the builds needs the same plan in each of them
    let build = if p.id == props::CROSS { "every" } else { build };
    let mut r = Prng::new(run_seed(seed, p.id, build, index));
    (p.gen)(&mut r, thorough)
}

/// run a plan and, to expose hidden state, run it a second time
pub fn run_twice(p: &PropDef, plan: &Plan, log: bool) -> (Cx, Result<Check, String>) {
    let (cx, r) = run_plan(p, plan, log);
    if p.id != props::CROSS && matches!(r, Ok(Ok(()))) {
        let (cx2, r2) = run_plan(p, plan, false);
        match r2 {
            Ok(Ok(())) => {
                if cx2.trace != cx.trace {
                    return (cx, Ok(violation("nondeterminism", "the same plan observed different values the second time in one process")));
                }
            }
            other => return (cx2, other),
        }
    }
    (cx, r)
}

fn limit_memory() {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    }
    let l = [3u64 << 30, 3u64 << 30];
    let z = [0u64, 0u64];
    unsafe {
        setrlimit(9, &l); // RLIMIT_AS
        setrlimit(4, &z); // RLIMIT_CORE
    }
}

// ------------------------------------------------------------------ worker
fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let thorough = a[1] == "thorough";
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, end, secs) = (n(2), n(3), n(4), n(5), n(6));
    let (statf, outf) = (&a[7], &a[8]);
    let reruns = n(9);
    limit_memory();
    install_hook();
    let mut stat = std::fs::File::create(statf).expect("stat file");
    beat_into(std::os::unix::io::AsRawFd::as_raw_fd(&stat));
    let t0 = Instant::now();
    let (mut runs, mut steps, mut checks, mut ns, mut reruns_done) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let (mut faults, mut probes, mut known) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let mut sigs: Vec<(u64, u64, bool, u64)> = vec![];
    let mut runs_with_faults = 0u64;
    let mut slowest = (0u64, 0u64);
    let mut i = start;
    let mut viol = None;
    while i < end {
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let _ = std::os::unix::fs::FileExt::write_at(&stat, &(i + 1).to_le_bytes(), 0);
        let plan = make_plan(p, seed, BUILD, i, thorough);
        let t1 = Instant::now();
        let twice = reruns > 0 && (i / stride) % reruns == 0;
        let (cx, r) = if twice { run_twice(p, &plan, false) } else { run_plan(p, &plan, false) };
        reruns_done += twice as u64;
        slowest = slowest.max((t1.elapsed().as_millis() as u64, i));
        runs += 1;
        steps += cx.steps;
        checks += cx.checks;
        ns = ns.saturating_add(cx.sim_ns);
        let f: u64 = cx.faults.values().sum();
        runs_with_faults += (f > 0) as u64;
        for (k, v) in &cx.faults {
            *faults.entry(*k).or_insert(0) += v;
        }
        for (k, v) in &cx.probes {
            *probes.entry(*k).or_insert(0) += v;
        }
        for (k, v) in &cx.known {
            *known.entry(*k).or_insert(0) += v;
        }
        sigs.push((cx.sched, cx.trace, cx.checks > 0 && cx.steps > 1, i));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(v)) => {
                viol = Some((i, v));
                break;
            }
            Err(e) => {
                eprintln!("{} (property {} build {} seed {} index {})", e, p.id, BUILD, seed, i);
                return 2;
            }
        }
        i += stride;
    }
    let _ = std::os::unix::fs::FileExt::write_at(&stat, &u64::MAX.to_le_bytes(), 0);
    let _ = stat.flush();
    let mut o = String::new();
    o += &format!("runs {}\nsteps {}\nchecks {}\nns {}\nreruns {}\nrwf {}\nslow {} {}\n", runs, steps, checks, ns, reruns_done, runs_with_faults, slowest.0, slowest.1);
    for (k, v) in faults {
        o += &format!("fault {} {}\n", k, v);
    }
    for (k, v) in probes {
        o += &format!("probe {} {}\n", k, v);
    }
    for (k, v) in known {
        o += &format!("known {} {}\n", k, v);
    }
    for (a, b, c, i) in sigs {
        o += &format!("sig {:x} {:x} {} {}\n", a, b, c as u8, i);
    }
    if let Some((i, v)) = viol {
        o += &format!("violation {} {}\t{}\n", i, v.class, v.detail.replace('\n', " "));
    }
    std::fs::write(outf, o).expect("result file");
    0
}

// ------------------------------------------------------------------ replay of one file
fn exec_file(path: &str, log: bool) -> i32 {
    limit_memory();
    install_hook();
    let rf = match mini::ReplayFile::load(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    if rf.build != BUILD && rf.build != "every" {
        eprintln!("replay file is for the {} build, this is {}", rf.build, BUILD);
        return 2;
    }
    let p = prop(&rf.prop);
    let (cx, r) = match rf.history {
        None => run_twice(p, &rf.plan, log),
        Some((seed, thorough, start, stride, upto)) => {
            // the violation needs the history of earlier runs in the same process
            let mut i = start;
            loop {
                let plan = make_plan(p, seed, BUILD, i, thorough);
                let (cx, r) = run_plan(p, &plan, log);
                if i >= upto || !matches!(r, Ok(Ok(()))) {
                    break (cx, r);
                }
                i += stride;
            }
        }
    };
    if let Some(l) = &cx.log {
        for x in l {
            println!("  {}", x);
        }
    }
    match r {
        Ok(Ok(())) => {
            println!("held trace={:016x}", cx.trace);
            0
        }
        Ok(Err(v)) => {
            println!("class={}\ndetail={}\ntrace={:016x}", v.class, v.detail.replace('\n', " "), cx.trace);
            1
        }
        Err(e) => {
            eprintln!("{}", e);
            2
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => sup::check(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("exec") => exec_file(&a[1], false),
        Some("replay") => exec_file(&a[1], true),
        Some("minimise") => {
            limit_memory();
            install_hook();
            mini::minimise_cmd(&a[1], &a[2])
        }
        Some("selftest") => {
            install_hook();
            selftest::run()
        }
        Some("show") => {
            // show PROP SEED INDEX [thorough]
            install_hook();
            let p = prop(&a[1]);
            let th = a.get(4).map_or(false, |x| x == "thorough");
            let plan = make_plan(p, a[2].parse().unwrap(), BUILD, a[3].parse().unwrap(), th);
            print!("{}", mini::plan_text(p, &plan));
            let (cx, r) = run_plan(p, &plan, true);
            for l in cx.log.unwrap_or_default() {
                println!("  {}", l);
            }
            println!("trace {:016x} faults {:?} probes {:?} -> {:?}", cx.trace, cx.faults, cx.probes, r);
            0
        }
        _ => {
            eprintln!("usage: rmath-sim check|worker|exec|replay|minimise|selftest|show");
            2
        }
    };
    std::process::exit(code);
}
