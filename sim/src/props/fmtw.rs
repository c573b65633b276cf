//! C10: several tasks format numbers into sinks that fail, write short, are interrupted or fill up.
use super::share::{deep, render, render_to, V, NFMT};
use crate::core::*;
use crate::ensure;
use crate::prng::Prng;
use rmath::bigint::{BigInt, Float, Nat, Rat};
use std::fmt::Write as _;
use std::io::Write as _;

pub const OPS: &[&str] = &["make", "share", "fail_at", "fail_everywhere", "file_sink", "change", "healthy"];

/// a text sink with one failure: at byte `at` it takes what fits (or nothing of that piece) and errs;
/// afterwards it either keeps failing or has recovered
struct Sink {
    at: usize,
    whole: bool,
    recovers: bool,
    failed: bool,
    text: String,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        crate::sched::callback();
        if self.failed && self.recovers {
            self.text.push_str(s);
            return Ok(());
        }
        if self.failed {
            return Err(std::fmt::Error);
        }
        if self.text.len() + s.len() > self.at {
            if !self.whole {
                let n = self.at - self.text.len();
                self.text.push_str(s.get(..n).unwrap_or(""));
            }
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// a byte sink as the operating system offers it: short writes, interruptions, a full disk
struct File {
    r: Prng,
    short: bool,
    eintr: bool,
    full_at: usize,
    zero: bool,
    data: Vec<u8>,
    hits: [u64; 3],
}
impl std::io::Write for File {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        crate::sched::callback();
        if self.eintr && self.r.chance(1, 3) {
            self.hits[0] += 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let room = self.full_at.saturating_sub(self.data.len());
        if room == 0 && !b.is_empty() {
            self.hits[2] += 1;
            return if self.zero { Ok(0) } else { Err(std::io::Error::from_raw_os_error(28)) };
        }
        let mut n = b.len().min(room);
        if self.short && n > 1 {
            n = 1 + self.r.below(n as u64) as usize;
            self.hits[1] += 1;
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Shown<'a>(&'a V, u64);
impl<'a> std::fmt::Display for Shown<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        render_to(self.0, self.1, f)
    }
}

fn make(s: &Step) -> Option<V> {
    let mut r = Prng::new(s.arg(3));
    let l = super::random::limbs(s.arg(1), if s.arg(2) >= 100 { (s.arg(2) - 92).min(24) } else { 1 + s.arg(2) % 7 }, s.arg(3));
    let int = |l: Vec<u32>, neg: bool| {
        let mut n = BigInt::from(l);
        if neg {
            n.set_negative();
        }
        n
    };
    match s.arg(0) % 8 {
        0 | 1 => Some(V::N(Nat::from(l))),
        2 | 3 => Some(V::I(int(l, s.arg(4) & 1 == 1))),
        4 => {
            let (a, b) = (int(l, s.arg(4) & 1 == 1), BigInt::from(super::random::limbs(r.below(12), 1 + r.below(3), r.u64())));
            guard(|| rmath::bigint::Rat::from_frac_bigint(&a, &b)).ok().and_then(|x| x.ok()).map(V::R)
        }
        5 | 6 => guard(|| {
            let mut f = match r.below(7) {
                0 => Float::from(r.u64()),
                1 => Float::from((r.u32() as f64 - 2e9) / 4096.0),
                2 => Float::from(1.0 / (1.0 + r.below(1000) as f64)),
                3 => Float::from(int(l, s.arg(4) & 1 == 1)),
                4 => Float::get_inf(r.chance(1, 2)),
                5 => Float::from(0u32),
                _ => Float::from(-1.5e-9 * r.below(1000) as f64),
            };
            if r.chance(1, 3) {
                f.set_precision(1 + r.below(60) as usize);
            }
            f
        })
        .ok()
        .map(V::F),
        _ => Some(match r.below(5) {
            0 => V::N(Nat::default()),
            1 => V::I(BigInt::from(Vec::<u32>::new())),
            2 => V::N(Nat::from(0u32)),
            3 => V::I(BigInt::from(-(r.below(300) as i64))),
            _ => V::R(guard(|| Rat::from(BigInt::from(Vec::<u32>::new()))).ok()?),
        }),
    }
}
fn name(v: &V) -> &'static str {
    match v {
        V::N(_) => "natural",
        V::I(_) => "integer",
        V::R(_) => "rational",
        V::F(_) => "float",
    }
}

fn gen(r: &mut Prng, thorough: bool) -> Plan {
    let tasks = r.range(1, 3);
    let n = if thorough { r.range(10, 60) } else { r.range(6, 24) };
    let mut progs = vec![];
    for t in 0..tasks {
        let mut p: Vec<Step> = vec![];
        let mk = |r: &mut Prng| vec![r.below(8), r.below(12), if r.chance(1, 60) { r.range(100, 112) } else { r.below(7) }, r.u64() >> 20, r.below(2)];
        p.push(Step { task: t as u32, op: 0, a: mk(r) });
        for _ in 0..n / tasks + 2 {
            let op = r.weighted(&[6, 2, 10, 4, 8, 2, 2]) as u32;
            let a = if op == 0 { mk(r) } else { vec![r.below(32), r.below(NFMT), r.below(400), r.below(4), r.u64() >> 30, r.below(16)] };
            p.push(Step { task: t as u32, op, a });
        }
        progs.push(p);
    }
    Plan { cfg: vec![], steps: super::interleave(r, progs) }
}

fn try_sink(v: &V, fm: u64, full: &str, at: usize, flags: u64, cx: &mut Cx) -> Check {
    let mut k = Sink { at, whole: flags & 1 != 0, recovers: flags & 2 != 0, failed: false, text: String::new() };
    let what = name(v);
    let r = must("format into a failing sink", || write!(k, "{}", Shown(v, fm)))?;
    cx.check();
    if k.failed {
        cx.fault("sink_error");
        if k.recovers {
            cx.fault("sink_error_transient");
        }
        ensure!(r.is_err(), "error-lost", "{} format {} reports success although the sink failed at byte {} of {:?}", what, fm, at, full);
    } else {
        ensure!(at >= full.len() && r.is_ok(), "error-invented", "{} format {}: the sink did not fail, {:?} is reported", what, fm, r);
    }
    ensure!(full.starts_with(&k.text), "not-a-prefix", "{} format {}: the sink that failed at byte {} holds {:?}, which is no prefix of {:?}", what, fm, at, k.text, full);
    ensure!(k.failed || k.text == full, "text-lost", "{} format {}: the sink holds {:?} instead of {:?}", what, fm, k.text, full);
    Ok(())
}

fn exec(plan: &Plan, cx: &mut Cx) -> Check {
    // values with an independent copy of each
    let mut live: Vec<(V, V)> = vec![];
    for s in &plan.steps {
        cx.sched(s);
        match s.op {
            0 => {
                if let Some(v) = make(s) {
                    let d = deep(&v);
                    live.push((v, d));
                }
                if live.len() > 8 {
                    live.remove(0);
                }
                continue;
            }
            _ if live.is_empty() => continue,
            _ => {}
        }
        let i = s.idx(0, live.len());
        let fm = s.arg(1) % NFMT;
        if s.op == 1 {
            let v = match &live[i].0 {
                V::N(n) => V::N(n.clone()),
                V::I(n) => V::I(n.clone()),
                V::R(n) => V::R(n.clone()),
                V::F(n) => V::F(n.clone()),
            };
            let d = deep(&live[i].1);
            live.push((v, d));
            continue;
        }
        let v = &live[i].0;
        // formats the library cannot do for this value on a healthy sink are left alone
        let Ok(full) = guard(|| render(v, fm)) else {
            cx.probe("format_unavailable");
            continue;
        };
        cx.obs_bytes(full.as_bytes());
        match s.op {
            2 => {
                cx.say(|| format!("task {}: {} {:?} into a sink that fails at byte {}", s.task, name(v), full, s.idx(2, full.len() + 2)));
                try_sink(v, fm, &full, s.idx(2, full.len() + 2), s.arg(3), cx)?
            }
            3 => {
                let n = full.len();
                cx.probe("every_byte_offset");
                let step = 1 + n / if n > 100 { 25 } else { 120 };
                for at in (0..=n).step_by(step) {
                    try_sink(v, fm, &full, at, s.arg(3), cx)?;
                }
            }
            4 => {
                let f = s.arg(5);
                let mut k = File { r: Prng::new(s.arg(4)), short: f & 1 != 0, eintr: f & 2 != 0, full_at: if f & 4 != 0 { s.idx(2, full.len() + 2) } else { usize::MAX }, zero: f & 8 != 0, data: vec![], hits: [0; 3] };
                let r = must("format into a file", || write!(k, "{}", Shown(v, fm)))?;
                cx.check();
                cx.faultn("write_interrupted", k.hits[0]);
                cx.faultn("short_write", k.hits[1]);
                cx.faultn("disk_full", k.hits[2]);
                let got = String::from_utf8_lossy(&k.data).to_string();
                ensure!(full.starts_with(&got), "not-a-prefix", "{} format {}: the file holds {:?}, which is no prefix of {:?}", name(v), fm, got, full);
                if k.hits[2] > 0 {
                    ensure!(r.is_err(), "error-lost", "{} format {} reports success although the disk was full at byte {} of {:?}", name(v), fm, k.full_at, full);
                } else {
                    ensure!(r.is_ok() && got == full, "text-lost", "{} format {}: short writes or interruptions leave {:?} of {:?} ({:?})", name(v), fm, got, full, r);
                    if k.hits[0] + k.hits[1] > 0 {
                        cx.probe("complete_through_short_and_interrupted_writes");
                    }
                }
            }
            5 => {
                // an owner changes the number between attempts; the texts must follow
                let d = Prng::new(s.arg(4)).u32();
                let gone = match &mut live[i] {
                    (V::N(a), V::N(b)) if !a.is_nan() => {
                        *a += d;
                        *b += d;
                        false
                    }
                    _ => true,
                };
                if !gone {
                    // handles that share it have followed; their copies have not: release them
                    let keep = live.swap_remove(i);
                    live.retain(|(v, d)| guard(|| render(v, 1)).ok() == guard(|| render(d, 1)).ok());
                    live.push(keep);
                }
            }
            _ => {}
        }
        let last = live.len() - 1;
        let (v, copy) = if s.op == 5 { (&live[last].0, &live[last].1) } else { (&live[i].0, &live[i].1) };
        let (a, b) = (guard(|| render(v, fm)).map_err(|_| ()), guard(|| render(copy, fm)).map_err(|_| ()));
        ensure!(a == b && (a.is_ok() || s.op == 5), "value-changed", "{} format {}: after a failed attempt the text is {:?}, that of an untouched copy {:?}", name(v), fm, a, b);
    }
    for (v, copy) in &live {
        for fm in [0, 1, 5] {
            let (a, b) = (guard(|| render(v, fm)).map_err(|_| ()), guard(|| render(copy, fm)).map_err(|_| ()));
            ensure!(a == b, "value-changed", "at the end {} format {} gives {:?}, that of an untouched copy {:?}", name(v), fm, a, b);
        }
    }
    Ok(())
}

pub const C10: PropDef = PropDef {
    id: "C10", ops: OPS, gen, exec, builds: &[("native", 1), ("portable", 1)], quick: 18000, thorough: 900000,
    rule: "one evaluation is one simulated run of tasks formatting shared numbers into faulty sinks; it is non-trivial if at least one attempt was judged and more than one step was scheduled; distinct by (schedule hash, observation hash)",
    real: &["Display, Debug, LowerHex, UpperHex, Octal, Binary, LowerExp, UpperExp of Nat, BigInt, Rat, Float", "core::fmt and std::io formatting machinery"],
    stub: &["text sinks (core::fmt::Write) and byte sinks (std::io::Write) with scripted failures"],
    assumptions: &["the text for a healthy sink is the reference; what digits it should hold is judged by C07", "a format that panics on a healthy sink is left out"],
    must_reach: &["sink_error", "sink_error_transient", "write_interrupted", "short_write", "disk_full", "every_byte_offset", "complete_through_short_and_interrupted_writes"],
};
