//! The scheduler: one simulated thread runs at a time, and which one is decided
//! here, from the run's seed (exploration) or from an explicit list (replay).
use crate::rng::{mix, Rng};
use crate::shared::*;
use crate::sys;
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const NONE: u32 = u32::MAX;
/// a waiting caller may yield or block this often before some operation begins
const MAX_GAVE: u64 = 100_000;
const HOST: u8 = 0;
const LIB: u8 = 1;

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(HOST) };
    static TID: Cell<u32> = const { Cell::new(NONE) };
    static HASH: Cell<u64> = const { Cell::new(0) };
    static FKIND: Cell<u32> = const { Cell::new(NONE) };
    static FCOUNT: Cell<u32> = const { Cell::new(0) };
    static FFIRED: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Unused,
    Ready,
    Blocked,
    Done,
}

#[derive(Clone, Copy)]
struct Th {
    st: St,
    addr: usize,
    deadline: u64, // u64::MAX = none
    since: u64,
    woken: u8, // 1 wake, 2 timeout, 3 spurious
    local: u64,
}

struct Sched {
    n: usize,
    cur: usize,
    steps: u64,
    limit: u64,
    /// steps when an operation last began: the limit counts from there
    base: u64,
    /// times the processor was given away since then
    gave: u64,
    switches: u64,
    accesses: u64,
    extra_us: u64,
    run_len: u64,
    rng: Rng,
    plain: u64,
    atomic: u64,
    spurious: u64,
    countdown: u64,
    explicit: Option<Vec<(u64, u32)>>,
    epos: usize,
    sig: u64,
    th: [Th; MAXT],
}

const T0: Th = Th { st: St::Unused, addr: 0, deadline: u64::MAX, since: 0, woken: 0, local: 0 };
static mut S: Option<Sched> = None;
static WORDS: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

pub struct Injected;

static mut OOM_OK: bool = false;
/// Dishonest callers may ask for more memory than there is; that is their end, not a finding.
pub fn tolerate_oom() {
    unsafe { OOM_OK = true }
}

pub struct Cfg {
    pub seed: u64,
    pub plain: u32,
    pub atomic: u32,
    pub spurious: u32,
    pub explicit: Option<Vec<(u64, u32)>>,
    pub hash_seed: u64,
    pub limit: u64,
}

/// A further phase of the same run: statistics accumulate.
pub fn run_threads_more(cfg: Cfg, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let keep = { let r = sh(); (r.steps, r.switches, r.sim_us, r.sig, r.accesses) };
    run_threads(cfg, bodies);
    let r = sh();
    r.steps += keep.0;
    r.switches += keep.1;
    r.sim_us += keep.2;
    r.sig = mix(r.sig ^ keep.3);
    r.accesses += keep.4;
}

/// Run the given callers to completion under the scheduler.
pub fn run_threads(cfg: Cfg, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    assert!(n >= 1 && n <= MAXT);
    let mut rng = Rng::new(cfg.seed);
    let countdown = geo(&mut rng, cfg.plain as u64);
    let mut th = [T0; MAXT];
    for t in th.iter_mut().take(n) {
        t.st = St::Ready;
    }
    unsafe {
        S = Some(Sched {
            n,
            cur: 0,
            steps: 0,
            limit: cfg.limit,
            base: 0,
            gave: 0,
            switches: 0,
            accesses: 0,
            extra_us: 0,
            run_len: 0,
            rng,
            plain: cfg.plain as u64,
            atomic: cfg.atomic as u64,
            spurious: cfg.spurious as u64,
            countdown,
            explicit: cfg.explicit,
            epos: 0,
            sig: 0x1234,
            th,
        });
    }
    std::alloc::set_alloc_error_hook(|_| {
        if FFIRED.with(|f| f.get()) || unsafe { OOM_OK } {
            resume_unwind(Box::new(Injected));
        }
        violation_fatal("crash", "out of memory inside the simulated process");
    });
    let hs = cfg.hash_seed;
    let mut handles = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                TID.with(|t| t.set(i as u32));
                HASH.with(|t| t.set(mix(hs ^ (i as u64 + 1).wrapping_mul(0xABCD_1234_5677))));
                wait_turn(i);
                let r = catch_unwind(AssertUnwindSafe(b));
                enter_host();
                if r.is_err() {
                    violation_fatal("harness", "a simulated caller panicked outside an operation");
                }
                finish(i);
                TID.with(|t| t.set(NONE));
            })
            .expect("spawn");
        handles.push(h);
    }
    // first thread to run
    let first = decide_forced(None);
    s().cur = first;
    hand_over(first);
    for h in handles {
        let _ = h.join();
    }
    flush_stats();
}

pub fn flush_stats() {
    unsafe {
        if let Some(x) = S.as_ref() {
            let r = sh();
            r.steps = x.steps;
            r.switches = x.switches;
            r.sim_us = x.steps + x.extra_us;
            r.sig = x.sig;
            r.accesses = x.accesses;
        }
    }
}

fn geo(r: &mut Rng, den: u64) -> u64 {
    if den == 0 {
        return u64::MAX;
    }
    // uniform in 1..2*den: mean den, cheap and seedable
    1 + r.below(2 * den)
}

fn wait_turn(i: usize) {
    while WORDS[i].swap(0, SeqCst) == 0 {
        sys::futex_wait_raw(&WORDS[i] as *const _ as *const u32, 0);
    }
}

fn hand_over(t: usize) {
    WORDS[t].store(1, SeqCst);
    sys::futex_wake_raw(&WORDS[t] as *const _ as *const u32);
}

pub fn managed() -> bool {
    TID.with(|t| t.get()) != NONE
}
pub fn tid() -> usize {
    TID.with(|t| t.get()) as usize
}
#[inline(always)]
pub fn in_lib() -> bool {
    MODE.with(|m| m.get()) == LIB
}
pub fn enter_host() {
    MODE.with(|m| m.set(HOST))
}
pub fn now_us() -> u64 {
    1_000_000_000 + s().steps + s().extra_us
}
/// logical time stamp: unique, totally ordered
pub fn stamp() -> u64 {
    let x = s();
    x.steps += 1;
    x.steps
}
pub fn multi() -> bool {
    s().n > 1
}

pub fn hash_rng() -> Option<Rng> {
    if managed() {
        Some(Rng::new(HASH.with(|h| h.get())))
    } else {
        None
    }
}
pub fn set_hash_seed(x: u64) {
    HASH.with(|h| h.set(x))
}

#[inline(always)]
pub fn access(addr: usize, size: usize, write: bool) {
    if in_lib() {
        crate::alloc::check(addr, size, write);
        s().accesses += 1;
        point(false);
    }
}

/// A scheduling point.
#[inline]
pub fn point(atomic: bool) {
    let x = s();
    x.steps += 1;
    if x.steps > x.base + x.limit {
        no_progress();
    }
    if x.n > 1 {
        point_multi(atomic);
    }
}

#[cold]
fn no_progress() -> ! {
    enter_host();
    violation_fatal("no-progress", "an operation did not complete within the step budget")
}

fn point_multi(atomic: bool) {
    let x = s();
    let me = x.cur;
    x.th[me].local += 1;
    x.run_len += 1;
    if x.explicit.is_some() {
        if let Some(t) = explicit_here() {
            if t != me && (x.th[t].st == St::Ready || x.th[t].st == St::Blocked) {
                fault_fired(fk::PREEMPT);
                switch(t);
                return;
            }
        }
    } else {
        x.countdown = x.countdown.saturating_sub(1);
        let mut fire = false;
        if x.countdown == 0 {
            x.countdown = geo(&mut x.rng, x.plain);
            fire = true;
        }
        if atomic && x.atomic > 0 && x.rng.chance(1, x.atomic) {
            fire = true;
        }
        if fire && (sh().npre as usize) < MAXPRE - 64 {
            let sp = x.spurious > 0 && x.rng.chance(1, x.spurious);
            if let Some(t) = pick(sp, false) {
                record(t);
                fault_fired(fk::PREEMPT);
                switch(t);
                return;
            }
        }
    }
    if atomic && x.run_len > 20_000 {
        // fairness: nobody spins for ever while others could run
        if let Some(t) = next_ready(me) {
            switch(t);
        }
    }
}

fn explicit_here() -> Option<usize> {
    let x = s();
    let st = x.steps;
    let e = x.explicit.as_ref()?;
    while x.epos < e.len() && e[x.epos].0 < st {
        x.epos += 1;
    }
    if x.epos < e.len() && e[x.epos].0 == st {
        x.epos += 1;
        let t = e[x.epos - 1].1 as usize;
        if t < x.n {
            return Some(t);
        }
    }
    None
}

fn record(t: usize) {
    let r = sh();
    let n = r.npre as usize;
    if n < MAXPRE {
        r.pre[n] = (s().steps, t as u32);
        r.npre += 1;
    }
}

fn next_ready(me: usize) -> Option<usize> {
    let x = s();
    (1..=x.n).map(|d| (me + d) % x.n).find(|&t| t != me && x.th[t].st == St::Ready)
}

fn pick(spurious: bool, with_me: bool) -> Option<usize> {
    let x = s();
    let ok = |t: usize| {
        (with_me || t != x.cur) && (x.th[t].st == St::Ready || (spurious && x.th[t].st == St::Blocked))
    };
    let c = (0..x.n).filter(|&t| ok(t)).count();
    if c == 0 {
        return None;
    }
    let k = x.rng.below(c as u64) as usize;
    (0..x.n).filter(|&t| ok(t)).nth(k)
}

/// Choose who runs when the current thread cannot (or none has started yet).
fn decide_forced(me: Option<usize>) -> usize {
    let x = s();
    x.steps += 1;
    loop {
        let any = (0..x.n).any(|t| x.th[t].st == St::Ready);
        if any {
            break;
        }
        // nobody can run: let simulated time pass to the next deadline
        let nxt = (0..x.n).filter(|&t| x.th[t].st == St::Blocked && x.th[t].deadline != u64::MAX).min_by_key(|&t| x.th[t].deadline);
        match nxt {
            Some(t) => {
                let d = x.th[t].deadline;
                let now = now_us();
                if d > now {
                    x.extra_us += d - now;
                }
                x.th[t].st = St::Ready;
                x.th[t].woken = 2;
                x.th[t].deadline = u64::MAX;
            }
            None => {
                enter_host();
                let mut m = String::from("deadlock: no caller can run;");
                for t in 0..x.n {
                    let st = match x.th[t].st {
                        St::Blocked => "blocked",
                        St::Done => "finished",
                        _ => "?",
                    };
                    m.push_str(&format!(" caller {} {} (operation {});", t, st, sh().cur_op[t]));
                }
                violation_fatal("deadlock", &m);
            }
        }
    }
    if x.explicit.is_some() || sh().npre as usize >= MAXPRE {
        if let Some(t) = explicit_here() {
            if x.th[t].st == St::Ready {
                return t;
            }
        }
        let start = me.map(|m| m + 1).unwrap_or(0);
        return (0..x.n).map(|d| (start + d) % x.n).find(|&t| x.th[t].st == St::Ready).unwrap();
    }
    let t = pick(false, true).unwrap();
    record(t);
    t
}

fn switch(t: usize) {
    let x = s();
    let me = x.cur;
    if x.th[t].st == St::Blocked {
        x.th[t].st = St::Ready;
        x.th[t].woken = 3;
        fault_fired(fk::SPURIOUS);
        sh().spurious += 1;
    }
    x.sig = mix(x.sig ^ ((me as u64) << 56) ^ ((t as u64) << 48) ^ x.th[me].local);
    if t == me {
        return;
    }
    x.switches += 1;
    x.run_len = 0;
    x.cur = t;
    hand_over(t);
    wait_turn(me);
}

fn finish(me: usize) {
    let x = s();
    x.th[me].st = St::Done;
    if (0..x.n).all(|t| x.th[t].st == St::Done) {
        return;
    }
    let t = decide_forced(Some(me));
    x.sig = mix(x.sig ^ ((me as u64) << 56) ^ ((t as u64) << 48) ^ 0xF1);
    x.cur = t;
    x.switches += 1;
    x.run_len = 0;
    hand_over(t);
}

pub fn yield_now() {
    let x = s();
    x.steps += 1;
    x.gave += 1;
    if x.steps > x.base + x.limit || x.gave > MAX_GAVE {
        no_progress();
    }
    if let Some(t) = next_ready(x.cur) {
        switch(t);
    }
}

fn block(addr: usize, deadline: u64) -> u8 {
    let x = s();
    let me = x.cur;
    x.gave += 1;
    if x.steps > x.base + x.limit || x.gave > MAX_GAVE {
        no_progress();
    }
    probe(pr::BLOCKED);
    x.th[me].st = St::Blocked;
    x.th[me].addr = addr;
    x.th[me].deadline = deadline;
    x.th[me].since = x.steps;
    x.th[me].woken = 0;
    let t = decide_forced(Some(me));
    if t != me {
        switch(t);
    }
    let w = x.th[me].woken;
    x.th[me].deadline = u64::MAX;
    x.th[me].addr = 0;
    w
}

pub fn futex_wait(addr: usize, val: u32, deadline: Option<u64>) -> i64 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val {
        s().steps += 1;
        return -11;
    }
    if let Some(d) = deadline {
        if d <= now_us() {
            return -110;
        }
    }
    match block(addr, deadline.unwrap_or(u64::MAX)) {
        2 => -110,
        3 => -4,
        _ => 0,
    }
}

pub fn futex_wake(addr: usize, n: usize) -> i64 {
    let x = s();
    let mut k = 0;
    while k < n {
        let w = (0..x.n)
            .filter(|&t| x.th[t].st == St::Blocked && x.th[t].addr == addr && addr != 0)
            .min_by_key(|&t| x.th[t].since);
        match w {
            Some(t) => {
                x.th[t].st = St::Ready;
                x.th[t].woken = 1;
                x.th[t].addr = 0;
                k += 1;
            }
            None => break,
        }
    }
    point(true);
    k as i64
}

pub fn sleep_until(deadline: u64) {
    if deadline > now_us() {
        block(0, deadline);
    }
}

/// Leave the processor to others for a long while (a stalled caller).
pub fn stall(us: u64) {
    if multi() {
        fault_fired(fk::STALL);
        block(0, now_us() + us);
    }
}

// ---------------------------------------------------------------- library calls

struct ModeGuard(u8);
impl Drop for ModeGuard {
    fn drop(&mut self) {
        MODE.with(|m| m.set(self.0))
    }
}

pub enum Outcome<R> {
    Ok(R),
    /// cut short by the injected fault
    Injected,
    /// the library panicked by itself
    Panic(String),
}

/// Run library code: instrumented accesses are scheduling points and are checked.
pub fn lib<R>(f: impl FnOnce() -> R) -> Outcome<R> {
    let g = ModeGuard(MODE.with(|m| m.get()));
    MODE.with(|m| m.set(LIB));
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(g);
    match r {
        Ok(v) => Outcome::Ok(v),
        Err(e) => {
            let inj = e.is::<Injected>();
            let msg = panic_text(&*e);
            drop(e);
            if inj {
                Outcome::Injected
            } else {
                Outcome::Panic(msg)
            }
        }
    }
}

fn panic_text(e: &(dyn Any + Send)) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    m
}

/// Library call with an optional armed fault (kind, n-th opportunity).
pub fn lib_op<R>(fault: Option<(usize, u32)>, f: impl FnOnce() -> R) -> (Outcome<R>, bool) {
    match fault {
        Some((k, n)) => arm(k, n),
        None => disarm(),
    }
    let r = lib(f);
    let fired = FFIRED.with(|f| f.get());
    disarm();
    (r, fired)
}

pub fn arm(kind: usize, n: u32) {
    FKIND.with(|k| k.set(kind as u32));
    FCOUNT.with(|c| c.set(n));
    FFIRED.with(|f| f.set(false));
}
pub fn disarm() {
    FKIND.with(|k| k.set(NONE));
    FFIRED.with(|f| f.set(false));
}

/// Caller-supplied code: leave library mode while it runs.
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _g = ModeGuard(MODE.with(|m| m.get()));
    MODE.with(|m| m.set(HOST));
    f()
}

/// Count an opportunity for a fault of this kind; true when it is to happen now.
pub fn fault_now(kind: usize) -> bool {
    if FKIND.with(|k| k.get()) != kind as u32 {
        return false;
    }
    if std::thread::panicking() {
        return false;
    }
    let c = FCOUNT.with(|c| c.get());
    if c == 0 {
        FKIND.with(|k| k.set(NONE));
        FFIRED.with(|f| f.set(true));
        fault_fired(kind);
        true
    } else {
        FCOUNT.with(|x| x.set(c - 1));
        false
    }
}

/// Caller-supplied code reaches a point where it may panic.
pub fn fault_point(kind: usize) {
    if fault_now(kind) {
        resume_unwind(Box::new(Injected));
    }
}

pub fn alloc_should_fail() -> bool {
    if !in_lib() {
        return false;
    }
    fault_now(fk::ALLOC)
}

pub fn set_cur_op(i: i32) {
    let t = tid();
    if t < MAXT {
        sh().cur_op[t] = i;
        s().base = s().steps;
        s().gave = 0;
    }
}
