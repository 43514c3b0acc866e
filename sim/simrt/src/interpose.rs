//! Interposed system interface: futex, yield, sleep, clock, random.
use crate::{sched, sys};
use std::os::raw::{c_int, c_long, c_void};

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *sys::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == sys::SYS_FUTEX && sched::managed() {
        match b & 0x7f {
            0 | 9 => {
                let timeout = d as *const [i64; 2];
                let us = if timeout.is_null() {
                    None
                } else {
                    let t = *timeout;
                    let v = t[0].saturating_mul(1_000_000).saturating_add(t[1] / 1000).max(0) as u64;
                    // FUTEX_WAIT_BITSET takes an absolute deadline, FUTEX_WAIT a relative one
                    Some(if (b & 0x7f) == 9 { v } else { sched::now_us() + v })
                };
                return ret(sched::futex_wait(a as usize, c as u32, us));
            }
            1 | 10 => return sched::futex_wake(a as usize, c as u32 as usize),
            _ => {}
        }
    }
    ret(sys::raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::managed() {
        sched::yield_now();
        return 0;
    }
    sys::raw(sys::SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if sched::managed() {
        let us = sched::now_us();
        (*ts)[0] = (us / 1_000_000) as i64;
        (*ts)[1] = ((us % 1_000_000) * 1000) as i64;
        return 0;
    }
    ret(sys::raw(sys::SYS_CLOCK_GETTIME, id as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, rq: *const [i64; 2], rm: *mut [i64; 2]) -> c_int {
    if sched::managed() {
        let t = *rq;
        let us = (t[0].saturating_mul(1_000_000).saturating_add(t[1] / 1000)).max(0) as u64;
        let deadline = if fl & 1 != 0 { us } else { sched::now_us() + us };
        sched::sleep_until(deadline);
        return 0;
    }
    (-sys::raw(sys::SYS_CLOCK_NANOSLEEP, id as c_long, fl as c_long, rq as c_long, rm as c_long, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if let Some(mut r) = sched::hash_rng() {
        let p = buf as *mut u8;
        for i in 0..n {
            *p.add(i) = r.next() as u8;
        }
        return n as isize;
    }
    ret(sys::raw(sys::SYS_GETRANDOM, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as isize
}
