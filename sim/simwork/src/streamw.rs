//! Vectors built from, and filled by, streams that misbehave.
use crate::bases::*;
use crate::common::*;
use crate::scalar::*;
use rustyalgebra::vector::Vector;
use simrt::sched::{fault_point, host};
use simrt::{fault_fired, fk, pr, probe, violation, Op, Plan, Rng};

const NREG: usize = 3;
pub const BUILD: u16 = 0;
pub const FILL: u16 = 1;
pub const PRELOAD: u16 = 2;

// args: dst, end position (-1: none), hint mode, flags, -, -, pairs...
pub fn gen(seed: u64, focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("stream", seed);
    let kind = r.below(NKINDS) as i64;
    let big = r.chance(1, 60);
    let long = !big && r.chance(1, 200);
    let size = if big { r.pick(&[3i64, 4, 4, 5]) } else { r.pick(&[0i64, 1, 1, 2, 2, 3]) };
    p.params = vec![kind, size];
    p.hash_seed = r.next() >> 1;
    let cap = domain_of(kind, size as usize);
    let n = if long { r.range(60, 300) } else { r.range(2, if big { 4 } else if deep { 14 } else { 8 }) };
    let mut ops = vec![];
    for _ in 0..n {
        let k = r.pick(&[BUILD, BUILD, BUILD, FILL, FILL, FILL, PRELOAD]);
        let lim = if r.chance(2, 3) { cap } else { 1 + r.below(cap as u64) as usize };
        let len = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.below(4),
            _ if big => {
                let m = if n == 2 && r.chance(1, 8) { r.pick(&[20000u64, 20000, 70000]) } else { 3000 };
                r.below(m)
            }
            _ if long => r.below(8),
            _ => r.below(if deep { 80 } else { 30 }),
        };
        let end = if r.chance(1, 3) { r.below(len + 1) as i64 } else { -1 };
        let hint = if r.chance(1, 2) { r.below(6) as i64 } else { 0 };
        let mut a = vec![r.below(NREG as u64) as i64, end, hint, r.below(8) as i64, 0, 0];
        let narrow = r.chance(1, 3);
        for i in 0..len {
            let k = if narrow { r.below(3.min(lim as u64)) } else { r.below(lim as u64) };
            a.push(k as i64);
            // sometimes a delivered pair cancels the previous one
            if i > 0 && r.chance(1, 8) {
                let pk = a[a.len() - 3];
                let pv = a[a.len() - 2];
                let l = a.len();
                a[l - 1] = pk;
                a.push(-pv);
            } else {
                a.push(pick_val(&mut r));
            }
        }
        let mut o = Op { k, a, fault: None };
        if k != PRELOAD && r.chance(2, 5) {
            let kinds: &[usize] = if focus == "C09" {
                &[fk::ITER, fk::ITER, fk::SCALAR, fk::CLONE, fk::ALLOC, fk::BASIS, fk::KEY]
            } else {
                &[fk::ITER, fk::ITER, fk::ITER, fk::SCALAR, fk::CLONE, fk::ALLOC, fk::BASIS]
            };
            o.fault = Some(pick_fault(&mut r, kinds, len + 2));
        }
        ops.push(o);
    }
    p.threads = vec![ops];
    p
}

const NKINDS: u64 = 10;
macro_rules! kinds {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<Dense<Zp>>($($a),*),
            1 => $f::<Sparse<Zp>>($($a),*),
            2 => $f::<Wrapped<Zp, 2>>($($a),*),
            3 => $f::<Tens<Zp, 3>>($($a),*),
            4 => $f::<Dense<f32>>($($a),*),
            5 => $f::<Sparse<f64>>($($a),*),
            6 => $f::<Tens<f64, 4>>($($a),*),
            7 => $f::<Tens<Zp, 1>>($($a),*),
            8 => $f::<WSparse<Zp>>($($a),*),
            _ => $f::<Wrapped<f64, 12>>($($a),*),
        }
    };
}
fn dom<K: Kind>(s: usize) -> usize {
    K::domain(s)
}
fn domain_of(kind: i64, size: usize) -> usize {
    kinds!(kind, dom, size)
}
pub fn exec(p: &Plan) {
    kinds!(p.p(0), run, p)
}

/// A stream: delivers pairs, may end early and resume, may give wrong hints, may die.
struct SimStream<K: Kind> {
    items: Vec<(usize, K::F)>,
    pos: usize,
    end: i64,
    ended: bool,
    hint: i64,
    seen: *mut Vec<(usize, K::F)>,
}

impl<K: Kind> Iterator for SimStream<K> {
    type Item = (K::K, Sc<K::F>);
    fn next(&mut self) -> Option<Self::Item> {
        host(|| {
            if !self.ended && self.end == self.pos as i64 {
                self.ended = true;
                if self.pos < self.items.len() {
                    fault_fired(fk::ITER_END);
                }
                return None;
            }
            if self.pos >= self.items.len() {
                self.ended = true;
                return None;
            }
            fault_point(fk::ITER);
            let (k, v) = self.items[self.pos];
            self.pos += 1;
            if !self.ended {
                unsafe { (*self.seen).push((k, v)) };
            }
            Some((K::key(k), Sc::new(v)))
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.pos;
        if self.hint != 0 {
            fault_fired(fk::ITER_HINT);
        }
        match self.hint {
            1 => (0, Some(0)),
            2 => (left + 50, Some(left + 50)),
            3 => (0, None),
            4 => (left * 3 + 1, Some(1)),
            5 => (left / 2, Some(left / 2)),
            _ => (left, Some(left)),
        }
    }
}

fn run<K: Kind>(p: &Plan) {
    probe(K::PROBE);
    note_domain::<K::F>();
    let cap = K::domain(p.p(1) as usize);
    let mut regs: Vec<K::V> = (0..NREG).map(|_| K::V::new()).collect();
    let mut model: Vec<Vec<K::F>> = vec![vec![K::F::ZERO; cap]; NREG];
    for (i, o) in p.threads[0].iter().enumerate() {
        simrt::sched::set_cur_op(i as i32);
        simrt::log(o.k as u64);
        let d = o.idx(0, NREG);
        let items: Vec<(usize, K::F)> =
            o.rest(6).chunks_exact(2).map(|c| (c[0].rem_euclid(cap as i64) as usize, K::F::of(c[1]))).collect();
        if items.is_empty() {
            probe(pr::EMPTY_STREAM);
        }
        // floats: every partial sum must stay exact
        let mut t = vec![0.0; cap];
        for (k, v) in &items {
            t[*k] += v.mag();
        }
        if t.iter().any(|x| *x > 900.0) {
            continue;
        }
        let mut seen: Vec<(usize, K::F)> = vec![];
        let plain = o.k == PRELOAD;
        // everything there is to deliver before the stream first ends
        let upto = if plain || o.arg(1) < 0 { items.len() } else { items.len().min(o.arg(1) as usize) };
        let offered: Vec<(usize, K::F)> = items[..upto].to_vec();
        let stream = SimStream::<K> {
            items,
            pos: 0,
            end: if plain { -1 } else { o.arg(1) },
            ended: false,
            hint: if plain { 0 } else { o.arg(2) },
            seen: &mut seen,
        };
        match o.k {
            BUILD | PRELOAD => {
                let what = "from_iterator";
                match call_op(what, o, || K::V::from_iterator(stream)) {
                    Call::Done(v) => {
                        regs[d] = v;
                        let mut m = vec![K::F::ZERO; cap];
                        let mut hit = vec![false; cap];
                        for (k, v) in &offered {
                            m[*k] = m[*k].m_add(*v);
                            if hit[*k] {
                                probe(pr::DUP_KEY);
                            }
                            hit[*k] = true;
                        }
                        model[d] = m;
                        check::<K>("building from a stream", d, cap, &regs, &mut model, &offered);
                    }
                    _ => {}
                }
            }
            _ => {
                let what = "insert";
                let mut dst = std::mem::replace(&mut regs[d], K::V::new());
                let r = call_op(what, o, || dst.insert(stream));
                regs[d] = dst;
                let mut m = model[d].clone();
                for (k, v) in &offered {
                    m[*k] = *v;
                }
                match r {
                    Call::Done(()) => {
                        model[d] = m;
                        check::<K>("filling from a stream", d, cap, &regs, &mut model, &offered);
                    }
                    _ => match observe::<K>(&regs[d], cap) {
                        Ok(v) => {
                            let ok =
                                |i: usize| v[i] == model[d][i] || seen.iter().any(|(k, x)| *k == i && *x == v[i]);
                            if let Some(i) = (0..cap).find(|&i| !ok(i)) {
                                violation(
                                    "stream",
                                    &format!(
                                        "filling cut short leaves coefficient {} at {}: neither the old {} nor one that was delivered",
                                        i,
                                        v[i].text(),
                                        model[d][i].text()
                                    ),
                                );
                            }
                            log_vals(&v);
                            model[d] = v;
                        }
                        Err(e) => violation("stream", &format!("filling cut short: {}", e)),
                    },
                }
            }
        }
        for j in 0..NREG {
            if j != d {
                check::<K>("an operation on another vector", j, cap, &regs, &mut model, &[]);
            }
        }
        simrt::sh().ops_done += 1;
    }
    drop(regs);
    check_all_released();
}

fn check<K: Kind>(what: &str, d: usize, cap: usize, regs: &[K::V], model: &mut [Vec<K::F>], seen: &[(usize, K::F)]) {
    let mut got = None;
    let v = match observe::<K>(&regs[d], cap) {
        Ok(v) => {
            if let Some(w) = call("get", || by_key::<K>(&regs[d], cap)) {
                got = Some(w);
            }
            v
        }
        Err(e) => {
            violation("stream", &format!("after {}: {}", what, e));
            return;
        }
    };
    log_vals(&v);
    if let Some(i) = diff(&v, &model[d]).or_else(|| got.as_ref().and_then(|g| diff(g, &model[d]))) {
        let del: Vec<K::F> = seen.iter().filter(|(k, _)| *k == i).map(|(_, x)| *x).collect();
        violation(
            "stream",
            &format!(
                "after {} coefficient {} is {} instead of {} (delivered there: {})",
                what,
                i,
                v[i].text(),
                model[d][i].text(),
                show(&del)
            ),
        );
        model[d] = v;
    }
}
