//! libc entry points taken over for scheduled threads.  Calls by other threads go to the real ones.
use crate::rt;
use libc::{c_int, c_void, clockid_t, pthread_attr_t, pthread_t, timespec};
use std::sync::OnceLock;

const BASE_S: i64 = 1_000_000;
const STACK: usize = 1 << 20;

unsafe fn real(name: &'static std::ffi::CStr) -> usize {
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as usize;
    assert!(p != 0);
    p
}
type Create = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
static CREATE: OnceLock<usize> = OnceLock::new();
static JOIN: OnceLock<usize> = OnceLock::new();

struct Child {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: usize,
    tid: usize,
    word: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let c = unsafe { Box::from_raw(p as *mut Child) };
    rt::child_enter(c.tid, c.word as *const _);
    let r = (c.f)(c.arg as *mut c_void);
    rt::child_exit();
    r
}

#[unsafe(no_mangle)]
unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let create: Create = unsafe { std::mem::transmute(*CREATE.get_or_init(|| real(c"pthread_create"))) };
    if !rt::active() {
        return unsafe { create(t, attr, f, arg) };
    }
    let tid = rt::register_child();
    let c = Box::into_raw(Box::new(Child { f, arg: arg as usize, tid, word: rt::futex_word(tid) as usize }));
    unsafe {
        let mut a: pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut a);
        libc::pthread_attr_setstacksize(&mut a, STACK);
        let r = create(t, &a, trampoline, c as *mut c_void);
        libc::pthread_attr_destroy(&mut a);
        if r == 0 {
            rt::set_pthread(tid, *t as u64);
        } else {
            rt::child_failed(tid);
            drop(Box::from_raw(c));
        }
        r
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    let join: Join = unsafe { std::mem::transmute(*JOIN.get_or_init(|| real(c"pthread_join"))) };
    if rt::active() {
        rt::join_pthread(t as u64);
    }
    unsafe { join(t, ret) }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if rt::active() {
        let n = rt::now();
        unsafe {
            (*ts).tv_sec = BASE_S + (n / 1_000_000_000) as i64;
            (*ts).tv_nsec = (n % 1_000_000_000) as _;
        }
        return 0;
    }
    rt::raw::libc_like(rt::raw::syscall(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0])) as c_int
}

#[unsafe(no_mangle)]
unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if rt::active() {
        let d = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
        rt::sleep_until(rt::now() + d);
        return 0;
    }
    rt::raw::libc_like(rt::raw::syscall(libc::SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0])) as c_int
}

#[unsafe(no_mangle)]
unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if rt::active() {
        let mut d = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
        if flags & libc::TIMER_ABSTIME != 0 {
            d = d.saturating_sub(BASE_S as u64 * 1_000_000_000);
        } else {
            d += rt::now();
        }
        rt::sleep_until(d);
        return 0;
    }
    // this one returns the error number
    -rt::raw::syscall(libc::SYS_clock_nanosleep, [clk as usize, flags as usize, req as usize, rem as usize, 0, 0]) as c_int
}

/// The locks, condition variables and parking of the standard library wait through this entry point.
#[unsafe(no_mangle)]
extern "C" fn syscall(nr: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if rt::active() && nr == libc::SYS_futex {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let until = if d == 0 {
                    None
                } else {
                    let t = unsafe { &*(d as *const timespec) };
                    let ns = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
                    Some(if op == libc::FUTEX_WAIT { rt::now().saturating_add(ns) } else { ns.saturating_sub(BASE_S as u64 * 1_000_000_000) })
                };
                let r = rt::futex_block(a, c as u32, until);
                return rt::raw::libc_like(-(r as isize)) as _;
            },
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => return rt::futex_unblock(a, c as u32 as usize) as _,
            _ => (),
        }
    }
    rt::raw::libc_like(rt::raw::syscall(nr, [a, b, c, d, e, f])) as _
}
#[unsafe(no_mangle)]
extern "C" fn sched_yield() -> c_int {
    if rt::active() {
        rt::sleep_until(rt::now() + 1);
        return 0;
    }
    rt::raw::libc_like(rt::raw::syscall(libc::SYS_sched_yield, [0; 6])) as c_int
}
