//! Sanitizer call-outs: every memory access of instrumented code lands here.
use crate::sched::{access, in_lib, point};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::*;

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_a: *mut c_void, _b: *mut c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_a: *mut c_void) {}

macro_rules! acc {
    ($($r:ident $w:ident $rw:ident $ur:ident $uw:ident $urw:ident $n:expr;)*) => {$(
        #[no_mangle] pub extern "C" fn $r(a: usize) { access(a, $n, false) }
        #[no_mangle] pub extern "C" fn $w(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $rw(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $ur(a: usize) { access(a, $n, false) }
        #[no_mangle] pub extern "C" fn $uw(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $urw(a: usize) { access(a, $n, true) }
    )*};
}
acc! {
    __tsan_read1 __tsan_write1 __tsan_read_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_unaligned_read_write1 1;
    __tsan_read2 __tsan_write2 __tsan_read_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_unaligned_read_write2 2;
    __tsan_read4 __tsan_write4 __tsan_read_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_unaligned_read_write4 4;
    __tsan_read8 __tsan_write8 __tsan_read_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_unaligned_read_write8 8;
    __tsan_read16 __tsan_write16 __tsan_read_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_unaligned_read_write16 16;
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(a: usize, n: usize) {
    access(a, n, false)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(a: usize, n: usize) {
    access(a, n, true)
}

extern "C" {
    fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
    fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void;
    fn memset(d: *mut c_void, c: c_int, n: usize) -> *mut c_void;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    access(s as usize, n, false);
    access(d as usize, n, true);
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    access(s as usize, n, false);
    access(d as usize, n, true);
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: c_int, n: usize) -> *mut c_void {
    access(d as usize, n, true);
    memset(d, c, n)
}

#[inline(always)]
fn pre(a: usize, n: usize, w: bool) {
    if in_lib() {
        crate::alloc::check(a, n, w);
        point(true);
    }
}

macro_rules! atom {
    ($($t:ty, $at:ty, $n:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $casw:ident $casv:ident;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $load(a: *const $at, _o: c_int) -> $t { pre(a as usize, $n, false); (*a).load(Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(a: *const $at, v: $t, _o: c_int) { pre(a as usize, $n, true); (*a).store(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).swap(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).fetch_add(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).fetch_sub(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).fetch_and(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).fetch_or(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).fetch_xor(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(a: *const $at, v: $t, _o: c_int) -> $t { pre(a as usize, $n, true); (*a).fetch_nand(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(a: *const $at, c: *mut $t, v: $t, _o: c_int, _p: c_int) -> c_int {
            pre(a as usize, $n, true);
            match (*a).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $casw(a: *const $at, c: *mut $t, v: $t, _o: c_int, _p: c_int) -> c_int {
            pre(a as usize, $n, true);
            match (*a).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $casv(a: *const $at, c: $t, v: $t, _o: c_int, _p: c_int) -> $t {
            pre(a as usize, $n, true);
            match (*a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) => x, Err(x) => x }
        }
    )*};
}
atom! {
    u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: c_int) {
    if in_lib() {
        point(true)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: c_int) {}
