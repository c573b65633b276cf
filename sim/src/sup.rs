//! The supervisor: spreads seeds over worker processes, watches them, and reports.
use crate::core::*;
use crate::mini::{shrink, ReplayFile};
use crate::{make_plan, prop};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const DISAGREE: &str = "builds-disagree";
const HANG: Duration = Duration::from_secs(60);

struct W {
    child: Child,
    stat: PathBuf,
    out: PathBuf,
    build: &'static str,
    start: u64,
    stride: u64,
    last: u64,
    beat: u64,
    since: Instant,
    done: bool,
}

#[derive(Default)]
struct Tot {
    runs: u64,
    steps: u64,
    checks: u64,
    ns: u64,
    reruns: u64,
    rwf: u64,
    slow: (u64, u64),
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    sched: HashSet<u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<(u64, u64)>,
    by_index: BTreeMap<u64, u64>,
    compared: u64,
    per_build: BTreeMap<String, u64>,
}

struct Found {
    build: &'static str,
    index: u64,
    start: u64,
    stride: u64,
    class: String,
    detail: String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}
fn jlist(m: &[&str]) -> String {
    let v: Vec<String> = m.iter().map(|k| esc(k)).collect();
    format!("[{}]", v.join(", "))
}

/// run `bin exec file` with a time limit: Some(class) if it fails
fn exec_child(bin: &str, file: &Path, limit: Duration) -> Option<(String, String)> {
    let mut c = Command::new(bin).arg("exec").arg(file).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                use std::io::Read;
                if let Some(mut o) = c.stdout.take() {
                    let _ = o.read_to_string(&mut s);
                }
                if let Some(sig) = st.signal() {
                    return Some(("crash".into(), format!("process killed by signal {}", sig)));
                }
                return match st.code() {
                    Some(1) => {
                        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
                        Some((get("class="), get("detail=")))
                    }
                    Some(0) | Some(2) => None,
                    _ => Some(("crash".into(), format!("process exited with {:?}", st.code()))),
                };
            }
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Some(("hang".into(), format!("no progress within {} s", limit.as_secs())));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(_) => return None,
        }
    }
}

/// run a command to its end: None if it had to be stopped
fn bounded(c: &mut Command, limit: Duration) -> Option<i32> {
    let mut c = c.stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return st.code(),
            Ok(None) if t0.elapsed() <= limit => std::thread::sleep(Duration::from_millis(3)),
            _ => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
        }
    }
}

/// run a replay file in one build, or in every build and compare what they observe
fn exec_all(bins: &[&String], file: &Path, limit: Duration) -> Option<(String, String)> {
    if bins.len() == 1 {
        return exec_child(bins[0], file, limit);
    }
    let mut seen: Vec<Vec<String>> = vec![];
    for b in bins {
        if let Some(x) = exec_child(b, file, limit) {
            return Some(x);
        }
        let o = Command::new(b).arg("replay").arg(file).stderr(Stdio::null()).output().ok()?;
        seen.push(String::from_utf8_lossy(&o.stdout).lines().map(|x| x.trim().to_string()).collect());
    }
    let i = (0..seen[0].len().max(seen[1].len())).find(|&i| seen[0].get(i) != seen[1].get(i))?;
    Some((DISAGREE.into(), format!("first difference: native '{}', portable '{}'", seen[0].get(i).map_or("", |x| x), seen[1].get(i).map_or("", |x| x))))
}

pub fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let p = prop(&a[0]);
    let tier = a[1].as_str();
    let thorough = tier == "thorough";
    let cross = p.id == crate::props::CROSS;
    let seed: u64 = a[2].parse().unwrap_or(1);
    let root = PathBuf::from(&a[3]);
    let mut bins: BTreeMap<&str, String> = BTreeMap::new();
    bins.insert("native", a[4].clone());
    bins.insert("portable", a[5].clone());
    let jobs: u64 = std::env::var("SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let scale: u64 = std::env::var("SIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(100);
    let total = (if thorough { p.thorough } else { p.quick }) * scale / 100;
    let cap: u64 = std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 1500 } else { 240 });
    let tmp = root.join(format!("target/run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    println!("property {} tier {} seed {} runs {}", p.id, tier, seed, total);

    let mut tot = Tot::default();
    let mut found: Option<Found> = None;
    let mut harness_err = false;
    let share_sum: u64 = p.builds.iter().map(|b| b.1).sum();
    let mut ws: Vec<W> = vec![];
    // every build gets its own set of workers, in proportion to its share of the runs
    for &(build, share) in p.builds {
        let n = (total * share / share_sum).max(1);
        let k = ((jobs * share + share_sum / 2) / share_sum).max(1);
        for w in 0..k {
            let stat = tmp.join(format!("{}-{}.stat", build, w));
            let out = tmp.join(format!("{}-{}.out", build, w));
            let child = Command::new(&bins[build])
                .args(["worker", p.id, tier, &seed.to_string(), &w.to_string(), &k.to_string(), &n.to_string(), &cap.to_string()])
                .arg(&stat)
                .arg(&out)
                .arg("8")
                .stdin(Stdio::null())
                .spawn();
            match child {
                Ok(child) => ws.push(W { child, stat, out, build, start: w, stride: k, last: 0, beat: 0, since: Instant::now(), done: false }),
                Err(e) => {
                    eprintln!("cannot start worker {}: {}", bins[build], e);
                    return 2;
                }
            }
        }
    }
    loop {
        let mut alive = 0;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            let b = std::fs::read(&w.stat).unwrap_or_default();
            let word = |i: usize| b.get(8 * i..8 * i + 8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap()));
            if word(0) != w.last || word(1) != w.beat {
                w.last = word(0);
                w.beat = word(1);
                w.since = Instant::now();
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if st.code() == Some(0) {
                        let t = std::fs::read_to_string(&w.out).unwrap_or_default();
                        for l in t.lines() {
                            let f: Vec<&str> = l.split(' ').collect();
                            let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                            let h = |i: usize| f.get(i).and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
                            match f[0] {
                                "runs" => {
                                    tot.runs += n(1);
                                    *tot.per_build.entry(w.build.into()).or_insert(0) += n(1);
                                }
                                "steps" => tot.steps += n(1),
                                "checks" => tot.checks += n(1),
                                "ns" => tot.ns = tot.ns.saturating_add(n(1)),
                                "reruns" => tot.reruns += n(1),
                                "rwf" => tot.rwf += n(1),
                                "slow" => tot.slow = tot.slow.max((n(1), n(2))),
                                "fault" => *tot.faults.entry(f[1].into()).or_insert(0) += n(2),
                                "probe" => *tot.probes.entry(f[1].into()).or_insert(0) += n(2),
                                "known" => *tot.known.entry(f[1].into()).or_insert(0) += n(2),
                                "sig" => {
                                    tot.sched.insert(h(1));
                                    tot.traces.insert(h(2));
                                    if n(3) == 1 {
                                        tot.nontrivial.insert((h(1), h(2)));
                                    }
                                    if cross {
                                        match tot.by_index.get(&n(4)) {
                                            None => {
                                                tot.by_index.insert(n(4), h(2));
                                            }
                                            Some(t) => {
                                                tot.compared += 1;
                                                if *t != h(2) && found.as_ref().map_or(true, |x| n(4) < x.index) {
                                                    found = Some(Found { build: "every", index: n(4), start: w.start, stride: w.stride, class: DISAGREE.into(), detail: "the two builds observe different values in the same history".into() });
                                                }
                                            }
                                        }
                                    }
                                }
                                "violation" => {
                                    let rest = l.splitn(3, ' ').nth(2).unwrap_or("");
                                    let (c, d) = rest.split_once('\t').unwrap_or((rest, ""));
                                    let cand = Found { build: w.build, index: n(1), start: w.start, stride: w.stride, class: c.into(), detail: d.into() };
                                    if found.as_ref().map_or(true, |x| cand.index < x.index) {
                                        found = Some(cand);
                                    }
                                }
                                _ => {}
                            }
                        }
                    } else if st.code() == Some(2) || st.code() == Some(101) {
                        harness_err = true;
                    } else if w.last > 0 && w.last != u64::MAX {
                        let why = match st.signal() {
                            Some(s) => format!("process killed by signal {}", s),
                            None => format!("process exited with {:?}", st.code()),
                        };
                        found = Some(Found { build: w.build, index: w.last - 1, start: w.start, stride: w.stride, class: "crash".into(), detail: why });
                    } else {
                        eprintln!("worker ended unexpectedly: {:?}", st);
                        harness_err = true;
                    }
                }
                Ok(None) => {
                    alive += 1;
                    if w.since.elapsed() > HANG && w.last != u64::MAX {
                        if w.last == 0 {
                            harness_err = true;
                        } else {
                            found = Some(Found { build: w.build, index: w.last - 1, start: w.start, stride: w.stride, class: "hang".into(), detail: format!("one scheduled step did not finish within {} s", HANG.as_secs()) });
                        }
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                    }
                }
                Err(_) => harness_err = true,
            }
        }
        if alive == 0 || found.is_some() || harness_err {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();

    // ---------------------------------------------------------------- report
    let mut code = 0;
    let mut vcount = 0;
    let mut replay_note = String::from("null");
    if harness_err && found.is_none() {
        eprintln!("harness error");
        code = 2;
    } else if let Some(f) = &found {
        code = 1;
        vcount = 1;
        let bin: Vec<&String> = if f.build == "every" { bins.values().collect() } else { vec![&bins[f.build]] };
        let plan = make_plan_in(p, seed, f.build, f.index, thorough);
        let origin = format!("VERIF_SEED={} tier={} build={} index={}", seed, tier, f.build, f.index);
        let mut rf = ReplayFile { prop: p.id.into(), build: f.build.into(), plan, history: None, origin, class: f.class.clone(), detail: f.detail.clone() };
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-{}-{}.replay", p.id, seed, f.build, f.index));
        let full = rf.plan.steps.len();
        let _ = std::fs::write(&path, rf.text());
        let short = Duration::from_secs(6);
        match exec_all(&bin, &path, HANG) {
            Some((c, _)) if c == f.class => {
                let alone = c == "hang" || c == "crash" || f.build == "every";
                let out = tmp.join("min.replay");
                // a smaller history may do what the larger one does not: never end
                let inside = !alone && bounded(Command::new(bin[0]).arg("minimise").arg(&path).arg(&out), Duration::from_secs(75)) == Some(0);
                if !inside {
                    let cand = tmp.join("cand.replay");
                    let probe_limit = if c == "crash" || f.build == "every" { HANG } else { short };
                    let mut n = 0;
                    let plan0 = rf.plan.clone();
                    let hd = ReplayFile { prop: rf.prop.clone(), build: rf.build.clone(), plan: Plan::default(), history: None, origin: rf.origin.clone(), class: rf.class.clone(), detail: rf.detail.clone() };
                    let mut hd = hd;
                    let small = shrink(&plan0, Duration::from_secs(if c == "hang" { 90 } else { 40 }), &mut |x| {
                        n += 1;
                        hd.plan = x.clone();
                        std::fs::write(&cand, hd.text()).is_ok() && exec_all(&bin, &cand, probe_limit).map_or(false, |y| y.0 == c)
                    });
                    rf.plan = small;
                    let _ = std::fs::write(&path, rf.text());
                    if let Some((_, d)) = exec_all(&bin, &path, HANG) {
                        rf.detail = d;
                    }
                    let _ = std::fs::write(&path, rf.text());
                } else {
                    if let Ok(t) = std::fs::read_to_string(&out) {
                        // keep the minimised file only if it fails the same way in a fresh process
                        let keep = tmp.join("keep.replay");
                        let _ = std::fs::write(&keep, &t);
                        if exec_all(&bin, &keep, HANG).map_or(false, |y| y.0 == f.class) {
                            let _ = std::fs::write(&path, &t);
                            if let Ok(m) = ReplayFile::load(path.to_str().unwrap()) {
                                rf = m;
                            }
                        }
                    }
                }
            }
            _ => {
                // not reproducible from this plan alone: replay the whole history of that worker
                rf.history = Some((seed, thorough, f.start, f.stride, f.index));
                let _ = std::fs::write(&path, rf.text());
            }
        }
        println!("violation class: {}", rf.class);
        println!("violation detail: {}", rf.detail);
        println!("minimised from {} to {} scheduled steps; {} build; replay with: bash /verif/replay.sh {}", full, rf.plan.steps.len(), f.build, path.display());
        for l in rf.text().lines().filter(|l| l.starts_with("cfg") || l.starts_with("step")).take(25) {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        replay_note = format!("{{\"path\": {}, \"class\": {}, \"detail\": {}, \"steps\": {}}}", esc(&path.display().to_string()), esc(&rf.class), esc(&rf.detail), rf.plan.steps.len());
    }
    // known findings: committed file, matched by identifier
    let kf = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for l in kf.lines() {
        let l = l.trim();
        if let Some(rest) = l.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, ' ');
            let (pid, key, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if pid == p.id {
                let n = tot.known.get(key).copied().unwrap_or(0);
                println!("KNOWN-FINDING: property={} {} {} (met {} times in this run)", pid, key, what, n);
            }
        }
    }
    let unreached: Vec<&str> = p.must_reach.iter().copied().filter(|k| !tot.probes.contains_key(*k) && !tot.faults.contains_key(*k)).collect();
    if code == 0 && !unreached.is_empty() {
        println!("warning: not reached in this batch: {}", unreached.join(", "));
    }
    // samples: the first plans of this batch, written out
    let mut samples = vec![];
    for &(build, _) in p.builds {
        for i in 0..2 {
            let pl = make_plan_in(p, seed, build, i, thorough);
            let mut t = crate::mini::plan_text(p, &pl);
            if t.len() > 1500 {
                t.truncate(1500);
                t += "...";
            }
            samples.push(format!("{{\"build\": {}, \"index\": {}, \"plan\": {}}}", esc(build), i, esc(&t)));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = if explore_s > 0.0 { (tot.runs as f64 / explore_s * 3600.0) as u64 } else { 0 };
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"wall_s\": {:.3},\n \"violations\": {},\n \"assumptions\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"runs_per_build\": {},\n  \"scheduled_steps\": {},\n  \"oracle_checks\": {},\n  \"runs_with_injected_faults\": {},\n  \"simulated_time_ns\": {},\n  \"simulated_time_note\": {},\n  \"faults_injected\": {},\n  \"rare_condition_probes\": {},\n  \"probes_not_reached\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"hash of the sequence of (simulated task, operation) pairs of a run\",\n  \"distinct_observation_traces\": {},\n  \"determinism_reruns_identical\": {},\n  \"slowest_run_ms\": {},\n  \"histories_compared_across_builds\": {},\n  \"known_findings_met\": {},\n  \"components_real\": {},\n  \"components_stub\": {},\n  \"violation\": {}\n }}\n}}\n",
        esc(p.id), esc(tier), seed, wall, vcount, jlist(p.assumptions),
        tot.runs, tot.nontrivial.len(), esc(p.rule), samples.join(", "), per_hour, per_hour, jmap(&tot.per_build), tot.steps, tot.checks, tot.rwf, tot.ns,
        esc(if tot.ns > 0 { "sum of simulated clock advances" } else { "no clock is read on this surface; simulated time is the number of scheduled steps" }),
        jmap(&tot.faults), jmap(&tot.probes), jlist(&unreached), tot.sched.len(), tot.traces.len(), tot.reruns, tot.slow.0, tot.compared, jmap(&tot.known), jlist(p.real), jlist(p.stub), replay_note
    );
    let evd = root.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if std::fs::write(evd.join(format!("{}.json", p.id)), ev).is_err() {
        eprintln!("cannot write evidence");
        code = if code == 0 { 2 } else { code };
    }
    let _ = std::fs::remove_dir_all(&tmp);
    println!("{}: {} runs ({} distinct non-trivial), {} oracle checks, {} faults injected, {} interleavings, slowest run {} ms (index {}), {:.1} s", p.id, tot.runs, tot.nontrivial.len(), tot.checks, tot.faults.values().sum::<u64>(), tot.sched.len(), tot.slow.0, tot.slow.1, wall);
    code
}

fn make_plan_in(p: &PropDef, seed: u64, build: &str, index: u64, thorough: bool) -> Plan {
    make_plan(p, seed, build, index, thorough)
}
