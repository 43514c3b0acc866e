//! Result block shared between a simulated process and its supervisor.
use crate::sys;

pub const MAXT: usize = 20;
pub const NFAULT: usize = 24;
pub const NPROBE: usize = 48;
pub const MAXPRE: usize = 4096;

#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 running, 1 ok, 2 violation
    pub class_len: u32,
    pub class: [u8; 64],
    pub msg_len: u32,
    pub msg: [u8; 1600],
    pub steps: u64,
    pub switches: u64,
    pub spurious: u64,
    pub sim_us: u64,
    pub sig: u64,
    pub log: u64,
    pub accesses: u64,
    pub ops_done: u64,
    pub ignored: u32,
    pub faults: [u32; NFAULT],
    pub probes: [u32; NPROBE],
    pub cur_op: [i32; MAXT],
    /// caller that saw the violation, plus one
    pub vt: u32,
    pub npre: u32,
    pub pre: [(u64, u32); MAXPRE],
}

pub static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn new_shared() -> *mut Shared {
    sys::map_anon(std::mem::size_of::<Shared>(), true) as *mut Shared
}

pub fn reset_shared(p: *mut Shared) {
    unsafe {
        // the preemption log is only valid up to npre, so it need not be cleared
        let n = std::mem::offset_of!(Shared, pre);
        std::ptr::write_bytes(p as *mut u8, 0, n);
        (*p).cur_op = [-1; MAXT];
    }
}

impl Shared {
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
}

macro_rules! names {
    ($m:ident, $names:ident, $n:expr, $($id:ident = $v:expr, $txt:expr;)*) => {
        pub mod $m { $(pub const $id: usize = $v;)* }
        pub const $names: &[(usize, &str)] = &[$(($v, $txt)),*];
    };
}

names! { fk, FAULT_NAMES, NFAULT,
    SCALAR = 0, "panic in a coefficient operation";
    CLONE = 1, "panic while copying a coefficient";
    EQ = 2, "panic while comparing a coefficient";
    KEY = 3, "panic in a key operation (hash, compare, copy)";
    ALLOC = 4, "allocation failure";
    ITER = 5, "stream dies (panic in next)";
    ITER_END = 6, "stream ends early, would resume";
    ITER_HINT = 7, "stream gives a wrong length hint";
    WRITER = 8, "writer fails at a byte";
    WRITER_PART = 9, "writer accepts part of a write, then fails";
    RENDER = 10, "coefficient fails to render itself";
    BASIS = 11, "panic in a basis operation";
    BASIS_LIE = 12, "basis answers inconsistently";
    VEC_LIE = 13, "caller-supplied vector answers inconsistently";
    EQ_LIE = 14, "coefficient compares inconsistently";
    PREEMPT = 15, "preemption at a memory access";
    SPURIOUS = 16, "spurious wake-up";
    STALL = 17, "caller stalled for a long time";
    GROW_DIE = 18, "caller dies while growing";
    LOOKUP_FAIL = 19, "lookup beyond the grown part";
    HASH_SEED = 20, "hash seed changed";
    HASH_COLLIDE = 21, "all keys collide";
    FUNC = 22, "panic in the product's scaling function";
}

names! { pr, PROBE_NAMES, NPROBE,
    OP_INTERRUPTED = 0, "operation cut short by a fault";
    OP_OK = 1, "operation completed";
    RETRIED = 2, "interrupted operation repeated";
    PARTIAL = 3, "interrupted operation left a mix of old and new coefficients";
    GREW = 4, "in-place operation had to enlarge its vector";
    CANCEL = 5, "coefficients cancelled to zero";
    ONE_UNIT = 6, "product with a constant term equal to one";
    ZERO_UNIT = 7, "product without constant term";
    PARTIAL_DEGREE = 8, "product with a partially filled top degree";
    TRUNC = 9, "product truncated by the degree bound";
    BLOCKED = 10, "caller blocked on a lock";
    COLD_RACE = 11, "two first requests for one alphabet overlapped";
    GROW_RACE = 12, "growth overlapped a lookup";
    GROW_GROW = 13, "two growths overlapped";
    ABSENT = 14, "lookup answered: beyond the grown part";
    PRESENT = 15, "lookup answered with an element";
    AFTER_DEATH = 16, "call for an alphabet after a caller died growing it";
    DUP_KEY = 17, "stream repeated a key";
    EMPTY_STREAM = 18, "empty stream";
    WRITE_ERR = 19, "rendering reported failure";
    WRITE_OK = 20, "rendering complete";
    PANIC_SEEN = 21, "library panicked on an inconsistent answer";
    SHARED_OVERLAP = 22, "operations of different threads overlapped";
    LIVE_COEFFS = 23, "tracked coefficients created";
    EQ_TRUE = 24, "vectors compared equal";
    EQ_FALSE = 25, "vectors compared different";
    FLOAT32 = 26, "runs on f32 coefficients";
    FLOAT64 = 27, "runs on f64 coefficients";
    EXACT = 28, "runs on exact (prime field) coefficients";
    DENSE = 29, "runs on dense vectors";
    SPARSE = 30, "runs on sparse vectors";
    WRAPPED = 31, "runs on wrapped dense tensors";
    TENSOR = 32, "runs on dense tensors";
    POISON_ERR = 33, "affected alphabet reported an error";
    SKIPPED_INEXACT = 34, "operation skipped: not exactly representable";
    LARGE = 35, "vectors with more than 256 coordinates";
    WIDE_BOUND = 37, "product with a degree bound beyond what the operands reach";
    DEG5 = 36, "product reaching degree five or more";
}

pub fn probe(i: usize) {
    sh().probes[i] = sh().probes[i].saturating_add(1);
}
pub fn fault_fired(i: usize) {
    sh().faults[i] = sh().faults[i].saturating_add(1);
}

/// Fold an observation into the run's event-log hash (used to prove determinism).
pub fn log(x: u64) {
    let s = sh();
    s.log = crate::rng::mix(s.log ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(1);
}

static mut ACCEPT: [u8; 256] = [0; 256];
static mut ACCEPT_LEN: usize = 0;

/// Comma-separated violation classes the running check decides; others are ignored.
pub fn set_accept(list: &str) {
    unsafe {
        let b = list.as_bytes();
        ACCEPT[..b.len()].copy_from_slice(b);
        ACCEPT_LEN = b.len();
    }
}

pub fn accepted(class: &str) -> bool {
    let list = unsafe { std::str::from_utf8_unchecked(&ACCEPT[..ACCEPT_LEN]) };
    list.split(',').any(|c| c == class || c == "*")
}

/// Report a violation. Ends the simulated process if the running check decides
/// this class; otherwise counts it and returns.
pub fn violation(class: &str, msg: &str) {
    if !accepted(class) {
        sh().ignored += 1;
        return;
    }
    violation_fatal(class, msg)
}

pub fn violation_fatal(class: &str, msg: &str) -> ! {
    let s = sh();
    if s.status != 2 {
        s.status = 2;
        s.vt = if crate::sched::managed() { crate::sched::tid() as u32 + 1 } else { 0 };
        let c = class.as_bytes();
        let n = c.len().min(s.class.len());
        s.class[..n].copy_from_slice(&c[..n]);
        s.class_len = n as u32;
        let m = msg.as_bytes();
        let n = m.len().min(s.msg.len());
        s.msg[..n].copy_from_slice(&m[..n]);
        s.msg_len = n as u32;
    }
    crate::sched::flush_stats();
    sys::exit_group(10)
}
