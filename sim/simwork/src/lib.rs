//! Workloads: what the simulated callers do, and the reference models that
//! judge what they see. Compiled with access call-outs, like the library.
#![allow(static_mut_refs)]
pub mod bases;
pub mod common;
#[cfg(feature = "hall")]
pub mod hallw;
pub mod hashw;
pub mod memw;
pub mod renderw;
pub mod scalar;
pub mod sharew;
pub mod streamw;
pub mod tensorw;
pub mod vecw;

use simrt::sched::{self, Cfg};
use simrt::Plan;

pub fn cfg(p: &Plan) -> Cfg {
    Cfg {
        seed: p.sched_seed,
        plain: p.plain,
        atomic: p.atomic,
        spurious: p.spurious,
        explicit: p.explicit.clone(),
        hash_seed: p.hash_seed,
        limit: if p.workload == "vec" && p.p(1) == 7 { 400_000_000 } else { 60_000_000 },
    }
}

/// To be called once in the supervisor.
pub fn init() {
    #[cfg(feature = "hall")]
    hallw::init();
}

pub fn gen(workload: &str, seed: u64, focus: &str, deep: bool) -> Plan {
    match workload {
        "vec" => vecw::gen(seed, focus, deep),
        "tensor" => tensorw::gen(seed, focus, deep),
        "stream" => streamw::gen(seed, focus, deep),
        "render" => renderw::gen(seed, focus, deep),
        #[cfg(feature = "hall")]
        "hall" => hallw::gen(seed, focus, deep),
        "share" => sharew::gen(seed, focus, deep),
        "mem" => memw::gen(seed, focus, deep),
        "hash" => hashw::gen(seed, focus, deep),
        _ => panic!("unknown workload"),
    }
}

fn alone(p: &Plan, f: fn(&Plan)) {
    let q = p.clone();
    sched::run_threads(cfg(p), vec![Box::new(move || f(&q))]);
}

/// Run a plan inside a simulated process.
pub fn exec(p: &Plan) {
    match p.workload.as_str() {
        "vec" => alone(p, vecw::exec),
        "tensor" => alone(p, tensorw::exec),
        "stream" => alone(p, streamw::exec),
        "render" => alone(p, renderw::exec),
        #[cfg(feature = "hall")]
        "hall" => hallw::exec(p),
        "share" => sharew::exec(p),
        "mem" => alone(p, memw::exec),
        "hash" => hashw::exec(p),
        _ => simrt::violation_fatal("harness", "unknown workload"),
    }
}
