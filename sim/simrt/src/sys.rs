//! Raw system interface (no libc crate available offline by policy).
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, len: usize) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn open(p: *const i8, flags: c_int, ...) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn prctl(op: c_int, ...) -> c_int;
    pub fn __errno_location() -> *mut c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
}

pub const SYS_FUTEX: c_long = 202;
pub const SYS_EXIT_GROUP: c_long = 231;
pub const SYS_CLOCK_GETTIME: c_long = 228;
pub const SYS_CLOCK_NANOSLEEP: c_long = 230;
pub const SYS_SCHED_YIELD: c_long = 24;
pub const SYS_GETRANDOM: c_long = 318;

#[inline(always)]
pub unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as c_long, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn map_anon(len: usize, shared: bool) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_ANONYMOUS|MAP_NORESERVE|(MAP_SHARED or MAP_PRIVATE)
    let flags = 0x20 | 0x4000 | if shared { 1 } else { 2 };
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, flags, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

pub fn futex_wait_raw(addr: *const u32, val: u32) {
    unsafe { raw(SYS_FUTEX, addr as c_long, 128, val as c_long, 0, 0, 0) };
}
pub fn futex_wake_raw(addr: *const u32) {
    unsafe { raw(SYS_FUTEX, addr as c_long, 1 | 128, 1, 0, 0, 0) };
}

pub fn unmap(p: *mut u8, len: usize) {
    unsafe { munmap(p as *mut c_void, len) };
}
