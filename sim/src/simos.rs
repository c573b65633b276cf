//! Link-level interposition of the two operating system services the library reaches: `syscall`
//! (getrandom) and `clock_gettime`. Inert unless a run installs a model; everything else is passed on.
use std::cell::{Cell, RefCell};
use std::os::raw::{c_int, c_long};

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

/// model of the kernel entropy pool: gets the requested length, answers with bytes or an errno,
/// plus garbage to leave in the buffer when the call fails
pub enum KReply {
    Bytes(Vec<u8>),
    Errno(i32, Vec<u8>),
}
type Kernel = Box<dyn FnMut(usize, u64) -> KReply>;
/// clock id -> (sec, nsec)
type Clock = Box<dyn FnMut(i32) -> (i64, i64)>;

thread_local! {
    static KERNEL: RefCell<Option<Kernel>> = const { RefCell::new(None) };
    static CLOCK: RefCell<Option<Clock>> = const { RefCell::new(None) };
    static ON: Cell<(bool, bool)> = const { Cell::new((false, false)) };
}

pub fn reset() {
    ON.with(|o| o.set((false, false)));
    KERNEL.with(|k| *k.borrow_mut() = None);
    CLOCK.with(|k| *k.borrow_mut() = None);
    #[cfg(rmath_sim)]
    rmath::rand::sim_hw::install(None);
}

pub fn install_kernel(k: Kernel) {
    KERNEL.with(|x| *x.borrow_mut() = Some(k));
}
pub fn install_clock(c: Clock) {
    CLOCK.with(|x| *x.borrow_mut() = Some(c));
}
/// run library code with the models active
pub fn with_kernel<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set((false, o.get().1)));
        }
    }
    ON.with(|o| o.set((true, o.get().1)));
    let _off = Off;
    f()
}
pub fn with_clock<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set((o.get().0, false)));
        }
    }
    ON.with(|o| o.set((o.get().0, true)));
    let _off = Off;
    f()
}

/// run the simulator's own code with the models out of the way
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let on = ON.with(|o| o.replace((false, false)));
    let r = f();
    ON.with(|o| o.set(on));
    r
}

unsafe fn raw(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

unsafe fn kernel(buf: *mut u8, len: usize, flags: u64) -> c_long {
    let rep = KERNEL.with(|k| k.borrow_mut().as_mut().map(|f| f(len, flags)));
    match rep {
        None => ret(-38),
        Some(KReply::Bytes(v)) => {
            let n = v.len().min(len);
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf, n);
            n as c_long
        }
        Some(KReply::Errno(e, junk)) => {
            let n = junk.len().min(len);
            std::ptr::copy_nonoverlapping(junk.as_ptr(), buf, n);
            ret(-(e as c_long))
        }
    }
}

/// # Safety
/// same contract as libc
#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if num == 318 && ON.with(|o| o.get().0) {
        return kernel(a as *mut u8, b, c as u64);
    }
    ret(raw(num, a, b, c, d, e, f))
}

/// # Safety
/// same contract as libc
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ON.with(|o| o.get().0) {
        return kernel(buf, len, flags as u64) as isize;
    }
    ret(raw(318, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

/// # Safety
/// same contract as libc
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
    if ON.with(|o| o.get().1) {
        let r = CLOCK.with(|k| k.borrow_mut().as_mut().map(|f| f(clk)));
        if let Some((s, n)) = r {
            (*ts).sec = s;
            (*ts).nsec = n;
            return 0;
        }
    }
    ret(raw(228, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
