//! The same sparse-vector history under several hash seeds and under total
//! collision: everything observable must agree.
use crate::bases::*;
use crate::common::*;
use crate::scalar::*;
use crate::vecw::{self, NREG};
use rustyalgebra::vector::Vector;
use simrt::sched::{self};
use simrt::{fault_fired, fk, pr, probe, violation, Plan, Rng};
use std::sync::Mutex;

// params: kind, size, replicas, which replicas collide (bits)
pub fn gen(seed: u64, _focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("hash", seed);
    let kind = r.below(3) as i64;
    let size = if deep || r.chance(1, 15) { r.below(5) } else { r.below(4) } as i64;
    let size = if r.chance(1, 150) { 5 } else { size };
    let long = size == 0 && r.chance(1, 20);
    let reps = r.range(2, 4);
    // total collision is quadratic: not on the largest vectors
    p.params = vec![kind, size, reps, if size < 4 { r.below(1 << reps) as i64 } else { 0 }];
    p.hash_seed = r.next() >> 1;
    let cap = Sparse::<Zp>::domain(size as usize);
    let mut ops = vec![];
    for d in 0..NREG as i64 {
        let mut o = vecw::op(&mut r, vecw::MAKE, cap);
        o.a[0] = d;
        ops.push(o);
    }
    for _ in 0..if long { r.range(100, 400) } else if size == 5 { r.range(2, 6) } else { r.range(3, if deep { 40 } else { 20 }) } {
        let k = match r.below(10) {
            0..=5 => r.pick(vecw::INPLACE),
            6..=8 => r.pick(vecw::FRESH),
            _ => r.pick(vecw::CONS),
        };
        let mut o = vecw::op(&mut r, k, cap);
        if (k >= 40 || k < 10) && r.chance(1, 6) {
            // the result is dropped and computed again, so the cut leaves nothing behind
            o.fault = Some(pick_fault(&mut r, &[fk::SCALAR, fk::CLONE, fk::ALLOC], cap as u64));
        }
        ops.push(o);
    }
    p.threads = vec![ops];
    p
}

type Obs = Vec<Vec<u64>>;

fn observe_all<K: Kind>(regs: &[K::V], cap: usize) -> Vec<u64> {
    let mut out = vec![];
    for v in regs {
        let mut seen = vec![0u32; cap];
        let mut st = K::stored(v);
        st.sort_by_key(|x| x.0);
        out.push(st.len() as u64);
        for (i, x) in &st {
            out.push(*i as u64);
            out.push(x.bits());
            if *i < cap {
                seen[*i] += 1;
            }
        }
        if let Some(i) = (0..cap).find(|&i| seen[i] > 1) {
            violation("hash", &format!("iterating visits the coefficient at key {} {} times", i, seen[i]));
        }
        let got = call("get", || (0..cap).map(|i| v.get(K::key(i)).is_some()).collect::<Vec<bool>>());
        if let Some(got) = got {
            if let Some(i) = (0..cap).find(|&i| got[i] != (seen[i] == 1)) {
                violation(
                    "hash",
                    &format!("key {} is {} by lookup but {} by iterating", i, yes(got[i]), yes(seen[i] == 1)),
                );
            }
        }
    }
    for a in 0..regs.len() {
        for b in 0..regs.len() {
            let e = call("comparing vectors", || regs[a] == regs[b]).unwrap_or(false);
            if a != b {
                probe(if e { pr::EQ_TRUE } else { pr::EQ_FALSE });
            }
            out.push(e as u64);
        }
    }
    out
}

fn yes(b: bool) -> &'static str {
    if b { "present" } else { "absent" }
}

fn history<K: Kind>(p: &Plan) -> Obs {
    probe(K::PROBE);
    note_domain::<K::F>();
    let cap = K::domain(p.p(1) as usize);
    let mut regs: Vec<K::V> = (0..NREG).map(|_| K::V::new()).collect();
    let mut model: Vec<Vec<K::F>> = vec![vec![K::F::ZERO; cap]; NREG];
    let mut obs = vec![];
    for (i, o) in p.threads[0].iter().enumerate() {
        sched::set_cur_op(i as i32);
        vecw::step::<K>(o, cap, &mut regs, &mut model);
        obs.push(observe_all::<K>(&regs, cap));
        simrt::sh().ops_done += 1;
    }
    obs
}

static RESULT: Mutex<Vec<Obs>> = Mutex::new(vec![]);

pub fn exec(p: &Plan) {
    for rep in 0..p.p(2).clamp(1, 6) {
        let collide = p.p(3) >> rep & 1 == 1;
        set_collide(collide);
        if rep > 0 {
            fault_fired(fk::HASH_SEED);
        }
        if collide {
            fault_fired(fk::HASH_COLLIDE);
        }
        let mut c = crate::cfg(p);
        c.hash_seed = simrt::rng::mix(p.hash_seed ^ (rep as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        let q = p.clone();
        sched::run_threads_more(
            c,
            vec![Box::new(move || {
                let o = match q.p(0) {
                    0 => history::<Sparse<Zp>>(&q),
                    1 => history::<Sparse<f64>>(&q),
                    _ => history::<Sparse<f32>>(&q),
                };
                RESULT.lock().unwrap().push(o);
            })],
        );
    }
    set_collide(false);
    let all = RESULT.lock().unwrap();
    for x in all[0].iter().flatten() {
        simrt::log(*x);
    }
    for (r, o) in all.iter().enumerate().skip(1) {
        for (i, (a, b)) in all[0].iter().zip(o).enumerate() {
            if a != b {
                violation(
                    "hash",
                    &format!(
                        "after operation {} ({}) stored keys, coefficients or comparisons differ between hash seed 0 and hash seed {}",
                        i,
                        vecw::name(p.threads[0][i].k),
                        r
                    ),
                );
                return;
            }
        }
    }
}

