//! Shared by the workloads: calling the library, reading vectors back.
use crate::bases::Kind;
use crate::scalar::*;
use rustyalgebra::vector::Vector;
use simrt::sched::{self, Outcome};
use simrt::{probe, pr, violation, Op};

/// Library call without an armed fault. A panic is reported; None then.
pub fn call<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match sched::lib_op(None, f).0 {
        Outcome::Ok(r) => Some(r),
        Outcome::Injected => None,
        Outcome::Panic(m) => {
            violation("panic", &format!("{} panics although nothing failed: {}", what, m));
            None
        }
    }
}

/// Library call with the operation's fault armed: Some(r) completed, None cut short.
/// The flag tells whether the fault happened.
pub fn call_op<R>(what: &str, op: &Op, f: impl FnOnce() -> R) -> Call<R> {
    let fault = op.fault.as_ref().map(|f| (f.kind as usize, f.n));
    let (o, fired) = sched::lib_op(fault, f);
    match o {
        Outcome::Ok(r) => {
            probe(pr::OP_OK);
            Call::Done(r)
        }
        Outcome::Injected => {
            probe(pr::OP_INTERRUPTED);
            Call::Cut
        }
        Outcome::Panic(m) => {
            if !fired {
                violation("panic", &format!("{} panics although nothing failed: {}", what, m));
                Call::Bad
            } else {
                probe(pr::OP_INTERRUPTED);
                Call::Cut
            }
        }
    }
}

pub enum Call<R> {
    Done(R),
    Cut,
    Bad,
}

/// Coefficients of a vector at every key in use; Err names a stored coordinate
/// outside the range in use that is not zero, or one stored twice.
pub fn observe<K: Kind>(v: &K::V, cap: usize) -> Result<Vec<K::F>, String> {
    let mut out = vec![K::F::ZERO; cap];
    let mut seen = vec![false; cap];
    for (i, x) in K::stored(v) {
        if i >= cap {
            if x != K::F::ZERO {
                return Err(format!("coefficient {} stored at index {} that was never written", x.text(), i));
            }
            continue;
        }
        if seen[i] {
            return Err(format!("key {} is stored twice", i));
        }
        seen[i] = true;
        out[i] = x;
    }
    Ok(out)
}

/// The same through key lookup.
pub fn by_key<K: Kind>(v: &K::V, cap: usize) -> Vec<K::F> {
    (0..cap).map(|i| v.get(K::key(i)).map(|s| s.val()).unwrap_or(K::F::ZERO)).collect()
}

pub fn log_vals<F: Dom>(xs: &[F]) {
    for x in xs {
        simrt::log(x.bits());
    }
}

pub fn show<F: Dom>(xs: &[F]) -> String {
    let mut s = String::from("[");
    for (n, x) in xs.iter().enumerate() {
        if n > 0 {
            s.push(' ');
        }
        if s.len() > 300 {
            s.push_str("...");
            break;
        }
        s.push_str(&x.text());
    }
    s.push(']');
    s
}

pub fn diff<F: Dom>(a: &[F], b: &[F]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|&i| a.get(i).copied().unwrap_or(F::ZERO) != b.get(i).copied().unwrap_or(F::ZERO))
}

/// After everything has been dropped, no coefficient may be left.
pub fn check_all_released() {
    if live_count() != 0 {
        violation(
            "conservation",
            &format!("{} coefficient(s) are never released after all vectors are gone", live_count()),
        );
    }
    for _ in 0..born_count().min(1) {
        probe(pr::LIVE_COEFFS);
    }
}

pub fn pick_val(r: &mut simrt::Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => -1,
        4 => r.range(-1_000_000, 1_000_000),
        _ => r.range(-5, 5),
    }
}

/// n-th opportunity: mostly early, sometimes anywhere in a long operation
pub fn pick_n(r: &mut simrt::Rng, span: u64) -> u32 {
    match r.below(4) {
        0 => r.below(3) as u32,
        1 => r.below(10) as u32,
        _ => r.below(span.max(1)) as u32,
    }
}

/// One of these faults; operations make few allocations, so those come early.
pub fn pick_fault(r: &mut simrt::Rng, kinds: &[usize], span: u64) -> simrt::Fault {
    let k = r.pick(kinds);
    let n = if k == simrt::fk::ALLOC { r.below(6) as u32 } else { pick_n(r, span) };
    simrt::Fault { kind: k as u16, n }
}
