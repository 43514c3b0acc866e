//! Deterministic-simulation runtime.
//!
//! Owns every source of nondeterminism the library under test can meet:
//! thread interleaving (sanitizer call-outs at every memory access of the
//! instrumented crates, plus interposed futex / yield / sleep calls), clocks,
//! hash seeds (interposed `getrandom`), the allocator, and the caller-supplied
//! code (through `fault_point`).
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod alloc;
pub mod interpose;
pub mod plan;
pub mod rng;
pub mod sched;
pub mod shared;
pub mod sys;
pub mod tsan;

pub use plan::{Fault, Op, Plan};
pub use rng::Rng;
pub use sched::{lib, host, lib_op};
pub use shared::*;
