//! Simulated heap. Inside a simulated process every allocation comes from a
//! bump arena that is never reused, with red zones and one shadow byte per
//! byte, so that instrumented accesses outside live blocks are detected, and
//! with injectable allocation failures.
use crate::{sched, sys, violation_fatal};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

pub const ARENA: usize = 768 << 20;
const BIG: usize = 64 << 20;
const RED: usize = 32;
const LIVE: u8 = 1;
const FREED: u8 = 2;

static mut BASE: usize = 0;
static mut SHADOW: usize = 0;
static BUMP: AtomicUsize = AtomicUsize::new(0);
pub static mut ON: bool = false;

/// Reserve the arena (in the supervisor, before forking simulated processes).
pub fn reserve() {
    unsafe {
        if BASE == 0 {
            BASE = sys::map_anon(ARENA, false) as usize;
            SHADOW = sys::map_anon(ARENA, false) as usize;
        }
    }
}

#[inline(always)]
fn in_arena(p: usize) -> bool {
    unsafe { p.wrapping_sub(BASE) < ARENA && BASE != 0 }
}

#[inline(always)]
pub fn check(addr: usize, size: usize, write: bool) {
    if !in_arena(addr) {
        return;
    }
    unsafe {
        let off = addr - BASE;
        if off + size > ARENA {
            bad(addr, size, write, 0);
        }
        let s = (SHADOW + off) as *const u8;
        for i in 0..size {
            if *s.add(i) != LIVE {
                bad(addr, size, write, *s.add(i));
            }
        }
    }
}

#[cold]
fn bad(_addr: usize, size: usize, write: bool, st: u8) -> ! {
    sched::enter_host();
    let what = if st == FREED { "released memory" } else { "memory outside any live block" };
    violation_fatal(
        "memory",
        &format!("library code {} {} byte(s) of {}", if write { "writes" } else { "reads" }, size, what),
    )
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc(l);
        }
        if sched::alloc_should_fail() {
            return std::ptr::null_mut();
        }
        let p = self.arena_alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc_zeroed(l);
        }
        if sched::alloc_should_fail() {
            return std::ptr::null_mut();
        }
        self.arena_alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !in_arena(a) {
            if !ON {
                System.dealloc(p, l);
            } // blocks of the supervisor are simply kept by a simulated process
            return;
        }
        let s = (SHADOW + (a - BASE)) as *mut u8;
        if l.size() > 0 {
            if *s != LIVE {
                sched::enter_host();
                violation_fatal("memory", "a block is released twice or was never allocated");
            }
            std::ptr::write_bytes(s, FREED, l.size());
            if sched::in_lib() {
                std::ptr::write_bytes(p, 0xDD, l.size());
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ON && !in_arena(p as usize) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

impl SimAlloc {
    unsafe fn arena_alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > BIG {
            return std::ptr::null_mut();
        }
        let al = l.align().max(16);
        let need = l.size() + al + 2 * RED;
        let off = BUMP.fetch_add((need + 15) & !15, Relaxed);
        if off + need > ARENA {
            return std::ptr::null_mut();
        }
        let a = (BASE + off + RED + al - 1) & !(al - 1);
        std::ptr::write_bytes((SHADOW + (a - BASE)) as *mut u8, LIVE, l.size());
        a as *mut u8
    }
}
