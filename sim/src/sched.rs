//! Simulated owners on threads of their own, and calls made from inside callbacks. Real threads are used,
//! but exactly one runs at a time: who runs is decided by a seeded scheduler, which may pass the turn on
//! at every allocation and release the library makes and at every call of a caller-supplied source or sink.
use crate::prng::mix;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct St {
    /// whose turn it is (0: nobody's)
    turn: u32,
    alive: u32,
    seed: u64,
    every: u64,
    n: u64,
    cap: u64,
    /// the turn could not be passed on (somebody waits for a lock another thread holds): everybody runs
    free: bool,
    switches: u64,
    inside: u64,
}
static ST: Mutex<St> = Mutex::new(St { turn: 0, alive: 0, seed: 0, every: 1, n: 0, cap: 0, free: false, switches: 0, inside: 0 });
static CV: Condvar = Condvar::new();
/// how long nobody moves before the threads are let loose: a library that was seen to use locks is not waited for as long
static STUCK: AtomicU64 = AtomicU64::new(3000);

thread_local! {
    static ME: Cell<u32> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
}

fn lock() -> MutexGuard<'static, St> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}

impl St {
    fn choose(&mut self) -> u32 {
        self.n += 1;
        let k = (mix(self.seed, self.n) >> 7) as u32 % self.alive.count_ones().max(1);
        let ids: u32 = self.alive;
        (1..32).filter(|i| ids >> i & 1 == 1).nth(k as usize).unwrap_or(0)
    }
    fn gap(&self) -> u64 {
        if self.n >= self.cap || self.free {
            return u64::MAX;
        }
        1 + mix(self.seed ^ 0x5bd1, self.n) % (2 * self.every)
    }
}

fn wait(mut g: MutexGuard<'static, St>, me: u32) -> MutexGuard<'static, St> {
    let mut seen = g.n;
    while g.turn != me && !g.free {
        let (h, t) = CV.wait_timeout(g, Duration::from_millis(STUCK.load(Relaxed))).unwrap_or_else(|e| e.into_inner());
        g = h;
        if t.timed_out() {
            if g.n == seen && g.turn != me {
                g.free = true;
                STUCK.store(200, Relaxed);
                CV.notify_all();
            }
            seen = g.n;
        }
    }
    g
}

/// the running thread may be interrupted here
fn point(weight: u64, inside: bool) {
    let me = ME.with(|m| m.get());
    if me == 0 {
        return;
    }
    let left = LEFT.with(|l| l.get());
    if left > weight {
        LEFT.with(|l| l.set(left - weight));
        return;
    }
    ME.with(|m| m.set(0));
    let gap = crate::simos::aside(|| {
        let mut g = lock();
        if !g.free {
            let next = g.choose();
            if next != me && next != 0 {
                g.switches += 1;
                g.inside += inside as u64;
                g.turn = next;
                CV.notify_all();
                g = wait(g, me);
            }
        }
        g.gap()
    });
    LEFT.with(|l| l.set(gap));
    ME.with(|m| m.set(me));
}

/// called by the simulated heap
#[inline]
pub fn heap_point() {
    if ME.with(|m| m.get()) != 0 {
        point(1, true);
    }
}

/// called by every source, seed source and sink of the simulator when the library calls it
pub fn callback() {
    point(8, false);
    nest();
}

pub struct Ran<T> {
    pub results: Vec<T>,
    pub switches: u64,
    pub inside: u64,
    pub free: bool,
}

/// run the jobs on threads of their own under the seeded scheduler
pub fn threads<T: Send + 'static>(seed: u64, every: u64, cap: u64, jobs: Vec<Box<dyn FnOnce() -> T + Send>>) -> Ran<T> {
    let n = jobs.len() as u32;
    {
        let mut g = lock();
        *g = St { turn: 0, alive: ((1u32 << n) - 1) << 1, seed, every: every.max(1), n: 0, cap, free: false, switches: 0, inside: 0 };
    }
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            let me = i as u32 + 1;
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let g = wait(lock(), me);
                    let gap = g.gap();
                    drop(g);
                    LEFT.with(|l| l.set(gap));
                    ME.with(|m| m.set(me));
                    struct Done(u32);
                    impl Drop for Done {
                        fn drop(&mut self) {
                            ME.with(|m| m.set(0));
                            let mut g = lock();
                            g.alive &= !(1 << self.0);
                            g.turn = if g.alive == 0 { 0 } else { g.choose() };
                            CV.notify_all();
                        }
                    }
                    let _done = Done(me);
                    f()
                })
                .expect("thread")
        })
        .collect();
    {
        let mut g = lock();
        g.turn = g.choose();
        CV.notify_all();
    }
    let results = hs.into_iter().map(|h| h.join().expect("simulated owner")).collect();
    let g = lock();
    Ran { results, switches: g.switches, inside: g.inside, free: g.free }
}

// ------------------------------------------------------------------ calls from inside callbacks
type Job = Box<dyn FnOnce() -> (u64, String)>;
thread_local! {
    /// callbacks until the next nested call; 0: none
    static NLEFT: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static NSEED: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 1)) };
    static QUEUE: RefCell<Vec<(usize, Job)>> = const { RefCell::new(Vec::new()) };
    static DONE: RefCell<Vec<(usize, u32, u64, String)>> = const { RefCell::new(Vec::new()) };
}

fn nest_gap() -> u64 {
    NSEED.with(|s| {
        let (seed, n, every) = s.get();
        s.set((seed, n + 1, every));
        1 + mix(seed, n) % (2 * every.max(1))
    })
}

fn nest() {
    let l = NLEFT.with(|l| l.get());
    if l == 0 {
        return;
    }
    if l > 1 {
        NLEFT.with(|x| x.set(l - 1));
        return;
    }
    let d = DEPTH.with(|d| d.get());
    NLEFT.with(|x| x.set(nest_gap()));
    if d >= 2 {
        return;
    }
    let Some((i, job)) = QUEUE.with(|q| q.borrow_mut().pop()) else {
        NLEFT.with(|x| x.set(0));
        return;
    };
    DEPTH.with(|x| x.set(d + 1));
    let (h, end) = job();
    DEPTH.with(|x| x.set(d));
    DONE.with(|o| o.borrow_mut().push((i, d + 1, h, end)));
}

/// run `f`; from inside the callbacks it meets, run the jobs. Gives (job, depth, result) of those that ran.
pub fn nested<T>(seed: u64, every: u64, jobs: Vec<Job>, f: impl FnOnce() -> T) -> (T, Vec<(usize, u32, u64, String)>) {
    NSEED.with(|s| s.set((seed, 0, every)));
    DONE.with(|o| o.borrow_mut().clear());
    QUEUE.with(|q| *q.borrow_mut() = jobs.into_iter().enumerate().rev().collect());
    NLEFT.with(|l| l.set(nest_gap()));
    let r = f();
    NLEFT.with(|l| l.set(0));
    QUEUE.with(|q| q.borrow_mut().clear());
    (r, DONE.with(|o| std::mem::take(&mut *o.borrow_mut())))
}
