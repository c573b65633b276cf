//! The simulated heap. Always installed; inert unless a run switches it on. When on, fresh blocks hold
//! seeded garbage, are placed at seeded offsets between guard zones, always move on growth, and freed
//! blocks are poisoned and quarantined, so that stray reads change results and stray writes are seen.
use crate::prng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

const HDR: usize = 64;
const TAIL: usize = 64;
const MAGIC_PLAIN: u64 = 0x504c41494e5f424c;
const MAGIC_GUARD: u64 = 0x47554152445f424c;
const MAGIC_FREED: u64 = 0x46524545445f424c;
const QN: usize = 128;

static SEED: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0); // 1 under/overflow, 2 write after free, 3 double/invalid free
static BAD_SIZE: AtomicU64 = AtomicU64::new(0);
static GUARDED: AtomicU64 = AtomicU64::new(0);
static MOVES: AtomicU64 = AtomicU64::new(0);
static LIVE_BLOCKS: AtomicU64 = AtomicU64::new(0);
static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);

struct Quarantine(UnsafeCell<([usize; QN], usize)>);
unsafe impl Sync for Quarantine {}
static Q: Quarantine = Quarantine(UnsafeCell::new(([0; QN], 0)));

#[repr(C)]
struct Header {
    magic: u64,
    real: usize,
    real_size: usize,
    real_align: usize,
    size: usize,
    fill: u64,
    pad: u64,
    sum: u64,
}

impl Header {
    fn checksum(&self) -> u64 {
        mix(mix(self.magic, self.real as u64), mix(self.size as u64 ^ self.pad, mix(self.fill, self.real_size as u64)))
    }
}

pub struct SimAlloc;

unsafe fn hdr(user: *mut u8) -> *mut Header {
    user.sub(HDR) as *mut Header
}

unsafe fn fill(p: *mut u8, n: usize, w: u64) {
    let b = w.to_ne_bytes();
    let mut i = 0;
    while i + 8 <= n {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), 8);
        i += 8;
    }
    while i < n {
        *p.add(i) = b[i & 7];
        i += 1;
    }
}

unsafe fn intact(p: *const u8, n: usize, w: u64) -> bool {
    let b = w.to_ne_bytes();
    (0..n).all(|i| *p.add(i) == b[i & 7])
}

fn born(n: usize) {
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    LIVE_BYTES.fetch_add(n as u64, Relaxed);
}
fn died(n: usize) {
    LIVE_BLOCKS.fetch_sub(1, Relaxed);
    LIVE_BYTES.fetch_sub(n as u64, Relaxed);
}
/// blocks and bytes handed out and not yet given back
pub fn live() -> (u64, u64) {
    (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed))
}

fn bad(kind: u64, size: usize) {
    if BAD.compare_exchange(0, kind, Relaxed, Relaxed).is_ok() {
        BAD_SIZE.store(size as u64, Relaxed);
    }
}

unsafe fn release(user: *mut u8) {
    let h = &*hdr(user);
    System.dealloc(h.real as *mut u8, Layout::from_size_align_unchecked(h.real_size, h.real_align));
}

/// verify and give back one quarantined block
unsafe fn evict(user: *mut u8) {
    let h = &*hdr(user);
    if h.magic != MAGIC_FREED || h.sum != h.checksum() {
        bad(2, h.size);
        return; // leak: header cannot be trusted
    }
    if !intact(user, h.size + TAIL, !h.fill) {
        bad(2, h.size);
    }
    release(user);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::heap_point();
        let seed = SEED.load(Relaxed);
        let align = l.align().max(16);
        let off = align.max(HDR);
        if seed == 0 || BUSY.load(Relaxed) {
            let size = l.size() + off;
            let real = System.alloc(Layout::from_size_align_unchecked(size, align));
            if real.is_null() {
                return real;
            }
            let user = real.add(off);
            let h = hdr(user);
            (*h).magic = MAGIC_PLAIN;
            (*h).real = real as usize;
            (*h).real_size = size;
            (*h).real_align = align;
            (*h).size = l.size();
            born(l.size());
            return user;
        }
        let k = COUNT.fetch_add(1, Relaxed);
        let w = mix(seed, k);
        let shift = ((w >> 5) & 15) as usize * align;
        let size = l.size() + off + shift + TAIL;
        let real = System.alloc(Layout::from_size_align_unchecked(size, align));
        if real.is_null() {
            return real;
        }
        GUARDED.fetch_add(1, Relaxed);
        born(l.size());
        let user = real.add(off + shift);
        let h = hdr(user);
        *h = Header { magic: MAGIC_GUARD, real: real as usize, real_size: size, real_align: align, size: l.size(), fill: w, pad: 0, sum: 0 };
        (*h).sum = (*h).checksum();
        fill(user, l.size(), w);
        fill(user.add(l.size()), TAIL, !w ^ 0x5a5a5a5a5a5a5a5a);
        user
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        crate::sched::heap_point();
        let h = hdr(user);
        match (*h).magic {
            MAGIC_PLAIN => {
                died((*h).size);
                release(user)
            }
            MAGIC_GUARD => {
                if (*h).sum != (*h).checksum() {
                    bad(1, l.size());
                    return;
                }
                if !intact(user.add((*h).size), TAIL, !(*h).fill ^ 0x5a5a5a5a5a5a5a5a) {
                    bad(1, (*h).size);
                }
                if (*h).size != l.size() {
                    bad(3, l.size());
                }
                died((*h).size);
                if SEED.load(Relaxed) == 0 {
                    release(user);
                    return;
                }
                (*h).magic = MAGIC_FREED;
                (*h).sum = (*h).checksum();
                fill(user, (*h).size + TAIL, !(*h).fill);
                let q = &mut *Q.0.get();
                let slot = q.1 % QN;
                q.1 += 1;
                let old = q.0[slot];
                q.0[slot] = user as usize;
                if old != 0 {
                    evict(old as *mut u8);
                }
            }
            MAGIC_FREED => bad(3, l.size()),
            _ => bad(1, l.size()),
        }
    }

    unsafe fn realloc(&self, user: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if SEED.load(Relaxed) != 0 {
            MOVES.fetch_add(1, Relaxed);
        }
        let p = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(user, p, l.size().min(new));
            self.dealloc(user, l);
        }
        p
    }
}

/// switch the adversarial heap on with this seed
pub fn on(seed: u64) {
    BAD.store(0, Relaxed);
    COUNT.store(0, Relaxed);
    GUARDED.store(0, Relaxed);
    MOVES.store(0, Relaxed);
    SEED.store(seed | 1, Relaxed);
}

pub fn is_on() -> bool {
    SEED.load(Relaxed) != 0
}

/// switch it off and flush the quarantine; returns (blocks guarded, growth moves)
pub fn off() -> (u64, u64) {
    if SEED.swap(0, Relaxed) != 0 {
        unsafe {
            let q = &mut *Q.0.get();
            for s in q.0.iter_mut() {
                if *s != 0 {
                    let u = *s as *mut u8;
                    *s = 0;
                    evict(u);
                }
            }
            q.1 = 0;
        }
    }
    (GUARDED.load(Relaxed), MOVES.load(Relaxed))
}

/// first corruption seen since `on`
pub fn corruption() -> Option<(&'static str, u64)> {
    match BAD.load(Relaxed) {
        0 => None,
        1 => Some(("heap-out-of-bounds-write", BAD_SIZE.load(Relaxed))),
        2 => Some(("heap-write-after-free", BAD_SIZE.load(Relaxed))),
        _ => Some(("heap-invalid-free", BAD_SIZE.load(Relaxed))),
    }
}

/// verify everything that still sits in quarantine
pub fn sweep() {
    unsafe {
        let q = &*Q.0.get();
        for &s in q.0.iter() {
            if s != 0 {
                let u = s as *mut u8;
                let h = &*hdr(u);
                if h.magic != MAGIC_FREED || h.sum != h.checksum() || !intact(u, h.size + TAIL, !h.fill) {
                    bad(2, h.size);
                }
            }
        }
    }
}
