//! Replay files and minimisation.
use crate::core::*;
use crate::{prop, run_twice};
use std::time::{Duration, Instant};

pub struct ReplayFile {
    pub prop: String,
    pub build: String,
    pub plan: Plan,
    /// (seed, thorough, start, stride, upto): the failure needs the runs before it in the same process
    pub history: Option<(u64, bool, u64, u64, u64)>,
    pub origin: String,
    pub class: String,
    pub detail: String,
}

pub fn plan_text(p: &PropDef, plan: &Plan) -> String {
    let mut s = String::from("cfg");
    for x in &plan.cfg {
        s += &format!(" {}", x);
    }
    s.push('\n');
    for st in &plan.steps {
        let name = crate::props::op_name(p, plan, st);
        s += &format!("step {} {} {}", st.task, st.op, name);
        for x in &st.a {
            s += &format!(" {}", x);
        }
        s.push('\n');
    }
    s
}

impl ReplayFile {
    pub fn text(&self) -> String {
        let p = prop(&self.prop);
        let mut s = format!("rmath-sim replay v1\nproperty {}\nbuild {}\norigin {}\nclass {}\ndetail {}\n", self.prop, self.build, self.origin, self.class, self.detail.replace('\n', " "));
        if let Some(h) = self.history {
            s += &format!("history {} {} {} {} {}\n", h.0, h.1 as u8, h.2, h.3, h.4);
        }
        s += &plan_text(p, &self.plan);
        s
    }
    pub fn load(path: &str) -> Result<ReplayFile, String> {
        let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut r = ReplayFile { prop: String::new(), build: String::new(), plan: Plan::default(), history: None, origin: String::new(), class: String::new(), detail: String::new() };
        let mut lines = t.lines();
        if lines.next() != Some("rmath-sim replay v1") {
            return Err(format!("{}: not a replay file", path));
        }
        for l in lines {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let nums = || v.split_whitespace().filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<u64>>();
            match k {
                "property" => r.prop = v.into(),
                "build" => r.build = v.into(),
                "origin" => r.origin = v.into(),
                "class" => r.class = v.into(),
                "detail" => r.detail = v.into(),
                "cfg" => r.plan.cfg = nums(),
                "history" => {
                    let n = nums();
                    r.history = Some((n[0], n[1] != 0, n[2], n[3], n[4]));
                }
                "step" => {
                    let mut it = v.split_whitespace();
                    let task = it.next().unwrap_or("0").parse().map_err(|_| "bad step")?;
                    let op = it.next().unwrap_or("0").parse().map_err(|_| "bad step")?;
                    it.next();
                    r.plan.steps.push(Step { task, op, a: it.filter_map(|x| x.parse().ok()).collect() });
                }
                _ => {}
            }
        }
        Ok(r)
    }
}

/// shrink `plan` while `fails` holds, within the time limit
pub fn shrink(plan: &Plan, limit: Duration, fails: &mut dyn FnMut(&Plan) -> bool) -> Plan {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let ok = || t0.elapsed() < limit;
    loop {
        let before = best.clone();
        // drop chunks of steps
        let mut n = best.steps.len() / 2;
        while n >= 1 && ok() {
            let mut i = 0;
            while i < best.steps.len() && ok() {
                let mut c = best.clone();
                let hi = (i + n).min(c.steps.len());
                c.steps.drain(i..hi);
                if fails(&c) {
                    best = c;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        // simplify arguments and configuration
        let mut si = 0;
        while si < best.steps.len() && ok() {
            for ai in 0..best.steps[si].a.len() {
                shrink_num(&mut best, &mut |p: &mut Plan| &mut p.steps[si].a[ai], fails, &ok);
            }
            if best.steps[si].task != 0 {
                let mut c = best.clone();
                c.steps[si].task = 0;
                if fails(&c) {
                    best = c;
                }
            }
            si += 1;
        }
        for ci in 0..best.cfg.len() {
            if ok() {
                shrink_num(&mut best, &mut |p: &mut Plan| &mut p.cfg[ci], fails, &ok);
            }
        }
        if best == before || !ok() {
            return best;
        }
    }
}

fn shrink_num(best: &mut Plan, at: &mut dyn FnMut(&mut Plan) -> &mut u64, fails: &mut dyn FnMut(&Plan) -> bool, ok: &dyn Fn() -> bool) {
    let mut tries = 0;
    loop {
        let cur = *at(best);
        if cur == 0 || !ok() || tries > 40 {
            return;
        }
        let mut cand = vec![0, 1, cur & 0xff, cur & 0xffff_ffff, cur / 2, cur - 1, cur & (cur - 1)];
        cand.retain(|&x| x < cur);
        cand.sort_unstable();
        cand.dedup();
        let mut hit = false;
        for v in cand {
            tries += 1;
            let mut c = best.clone();
            *at(&mut c) = v;
            if fails(&c) {
                *best = c;
                hit = true;
                break;
            }
        }
        if !hit {
            return;
        }
    }
}

/// minimise in this process (the failure neither hangs nor kills the process)
pub fn minimise_cmd(inp: &str, out: &str) -> i32 {
    let mut rf = match ReplayFile::load(inp) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let p = prop(&rf.prop);
    let class = rf.class.clone();
    let twice = class == "nondeterminism";
    let one = |c: &Plan| if twice { run_twice(p, c, false).1 } else { run_plan(p, c, false).1 };
    let mut fails = |c: &Plan| matches!(one(c), Ok(Err(v)) if v.class == class);
    if !fails(&rf.plan) {
        return 3;
    }
    rf.plan = shrink(&rf.plan, Duration::from_secs(40), &mut fails);
    if let Ok(Err(v)) = one(&rf.plan) {
        rf.detail = v.detail;
    }
    std::fs::write(out, rf.text()).map(|_| 0).unwrap_or(2)
}
