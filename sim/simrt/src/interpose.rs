//! The seams: libc symbols that the standard library and `getrandom` call for time, entropy and
//! blocking. Defined here, they take precedence over libc's at link time. Outside of a run they pass
//! through to the kernel.

use crate::rt::*;

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

fn sim() -> bool {
    active()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let realtime = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => true,
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => false,
        _ => return ret(raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32,
    };
    if !sim() {
        return ret(raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32;
    }
    let v = clock_read(realtime);
    (*ts).tv_sec = v.div_euclid(1_000_000_000) as i64;
    (*ts).tv_nsec = v.rem_euclid(1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut libc::c_void) -> libc::c_int {
    if !sim() {
        return ret(raw_syscall(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as i32;
    }
    let v = clock_read(true);
    (*tv).tv_sec = v.div_euclid(1_000_000_000) as i64;
    (*tv).tv_usec = (v.rem_euclid(1_000_000_000) / 1000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    if !sim() {
        return raw_syscall(libc::SYS_time, t as i64, 0, 0, 0, 0, 0);
    }
    let v = clock_read(true).div_euclid(1_000_000_000) as i64;
    if !t.is_null() {
        *t = v;
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !sim() {
        return ret(raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32;
    }
    sleep_ns(((*req).tv_sec as u64).saturating_mul(1_000_000_000) + (*req).tv_nsec as u64);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if !sim() {
        return -raw_syscall(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32;
    }
    let ns = ((*req).tv_sec as u64).saturating_mul(1_000_000_000) + (*req).tv_nsec as u64;
    if flags & libc::TIMER_ABSTIME != 0 {
        let now = rt().now;
        sleep_ns(ns.saturating_sub(now));
    } else {
        sleep_ns(ns);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if sim() {
        let _g = callback();
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !sim() {
        return ret(raw_syscall(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize;
    }
    ret(entropy_read(buf as *mut u8, len)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: libc::size_t) -> libc::c_int {
    let mut done = 0;
    while done < len {
        let r = if sim() {
            entropy_read((buf as *mut u8).add(done), len - done)
        } else {
            raw_syscall(libc::SYS_getrandom, (buf as *mut u8).add(done) as i64, (len - done) as i64, 0, 0, 0, 0)
        };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r < 0 {
            return ret(r) as i32;
        }
        done += r as usize;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if sim() {
        return rt().pid;
    }
    raw_syscall(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    match n {
        libc::SYS_getpid if sim() => return rt().pid as i64,
        libc::SYS_getrandom if sim() => return ret(entropy_read(a as *mut u8, b as usize)),
        libc::SYS_clock_gettime if sim() => return clock_gettime(a as i32, b as *mut libc::timespec) as i64,
        libc::SYS_futex if is_sim_thread() => {
            let op = b as i32 & 0x7f;
            match op {
                0 | 9 => {
                    let deadline = if d != 0 {
                        let ts = &*(d as *const libc::timespec);
                        let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        Some(if op == 0 { rt().now + ns } else { ns })
                    } else {
                        None
                    };
                    return ret(futex_wait(a as usize, c as u32, deadline));
                }
                1 | 10 => return futex_wake(a as usize, c as u32),
                _ => {}
            }
        }
        _ => {}
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    static mut N: u32 = 0;
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        N += 1;
        *p = N;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    edge(*guard);
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// A load or store in the code under test. Those of the program's writable static data, by which
/// threads might interfere, are preemption points.
macro_rules! accesses {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const u8) {
            if p >= &raw const __data_start && p < &raw const _end {
                access(p);
            }
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// Keeps the definitions above linked in.
pub fn touch() -> usize {
    let fs: [usize; 22] = [
        __sanitizer_cov_load1 as *const () as usize,
        __sanitizer_cov_load2 as *const () as usize,
        __sanitizer_cov_load4 as *const () as usize,
        __sanitizer_cov_load8 as *const () as usize,
        __sanitizer_cov_load16 as *const () as usize,
        __sanitizer_cov_store1 as *const () as usize,
        __sanitizer_cov_store2 as *const () as usize,
        __sanitizer_cov_store4 as *const () as usize,
        __sanitizer_cov_store8 as *const () as usize,
        __sanitizer_cov_store16 as *const () as usize,
        clock_gettime as *const () as usize,
        gettimeofday as *const () as usize,
        time as *const () as usize,
        nanosleep as *const () as usize,
        clock_nanosleep as *const () as usize,
        sched_yield as *const () as usize,
        getrandom as *const () as usize,
        getentropy as *const () as usize,
        syscall as *const () as usize,
        getpid as *const () as usize,
        __sanitizer_cov_trace_pc_guard as *const () as usize,
        __sanitizer_cov_trace_pc_guard_init as *const () as usize,
    ];
    std::hint::black_box(fs.iter().fold(0usize, |a, &b| a.wrapping_add(b)))
}
