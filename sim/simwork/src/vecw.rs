//! Histories of vector operations on dense, sparse and wrapped vectors, cut
//! short at chosen points, against an array of exact coefficients.
use crate::bases::*;
use crate::common::*;
use crate::scalar::*;
use rustyalgebra::vector::{Vector, VectorKeyExt};
use simrt::{fk, pr, probe, violation, Op, Plan, Rng};

pub const NREG: usize = 4;

// constructors
pub const MAKE: u16 = 0;
pub const FROM_KEY: u16 = 1;
pub const FROM_KEY_SC: u16 = 2;
pub const BUILD: u16 = 3;
/// many coefficients by a rule: stored exactly (dense) or built from a stream
pub const FILLED: u16 = 4;
/// zeros (dense)
pub const OF_DIM: u16 = 5;
// in place
pub const IADD: u16 = 10;
pub const ISUB: u16 = 11;
pub const INEG: u16 = 12;
pub const ILMUL: u16 = 13;
pub const IRMUL: u16 = 14;
pub const IRDIV: u16 = 15;
pub const ILDIV: u16 = 16;
pub const F_ARM: u16 = 17;
pub const F_ALM: u16 = 18;
pub const F_SRM: u16 = 19;
pub const F_SLM: u16 = 20;
pub const F_ARD: u16 = 21;
pub const F_ALD: u16 = 22;
pub const F_SRD: u16 = 23;
pub const F_SLD: u16 = 24;
pub const INSERT1: u16 = 25;
pub const INSERTN: u16 = 26;
pub const ERASE: u16 = 27;
pub const KADD: u16 = 28;
pub const KSUB: u16 = 29;
pub const KADDDIV: u16 = 30;
pub const KSUBDIV: u16 = 31;
pub const GETMUT: u16 = 32;
pub const SWAP: u16 = 33;
pub const CLEAR: u16 = 34;
pub const RESIZE: u16 = 35;
pub const SLICE: u16 = 36;
// new vectors
pub const COPY: u16 = 40;
pub const NEG: u16 = 41;
pub const ADD: u16 = 42;
pub const SUB: u16 = 43;
pub const LMUL: u16 = 44;
pub const RMUL: u16 = 45;
pub const RDIV: u16 = 46;
pub const LDIV: u16 = 47;
pub const DUP: u16 = 48;

pub const INPLACE: &[u16] = &[
    IADD, IADD, ISUB, ISUB, INEG, ILMUL, IRMUL, IRDIV, ILDIV, F_ARM, F_ALM, F_SRM, F_SLM, F_ARD, F_ALD, F_SRD, F_SLD, INSERT1,
    INSERTN, ERASE, KADD, KSUB, KADDDIV, KSUBDIV, GETMUT, SWAP, CLEAR, RESIZE, RESIZE, SLICE,
];
pub const FRESH: &[u16] = &[COPY, NEG, ADD, SUB, LMUL, RMUL, RDIV, LDIV, DUP];
pub const CONS: &[u16] = &[MAKE, FROM_KEY, FROM_KEY_SC, BUILD, FILLED, OF_DIM];

pub fn gen(seed: u64, focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("vec", seed);
    let mut kind = r.below(NKINDS) as i64;
    let huge = if deep || r.chance(1, 12) { 4 } else { 2 };
    let mut size = r.pick(&[0i64, 0, 1, 1, 1, 2, 2, 3, huge]);
    if r.chance(1, 150) {
        size = 5;
    }
    if r.chance(1, 900) {
        size = 6;
    }
    let long = r.chance(1, 250);
    if long {
        size = 0;
    }
    // every operation once, in any order, on large vectors
    let tour = r.chance(1, 700);
    if tour {
        size = r.pick(&[5i64, 5, 5, 6]);
    }
    // more coordinates than a short integer counts
    if !tour && r.chance(1, if focus == "C13" { 120 } else { 2000 }) {
        size = 7;
        kind = r.pick(&[0i64, 4, 6, 14]);
    }
    p.params = vec![kind, size];
    p.hash_seed = r.next() >> 1;
    let cap = domain_of(kind, size as usize);
    let mut ops = vec![];
    for d in 0..NREG as i64 {
        if size == 7 && d > 1 {
            continue;
        }
        if r.chance(9, 10) {
            let k = if tour || r.chance(1, if size >= 4 { 2 } else { 8 }) { r.pick(&[BUILD, FILLED, FILLED]) } else { MAKE };
            let mut o = op(&mut r, k, cap);
            o.a[0] = d;
            if size == 7 && r.chance(2, 3) {
                o.a[4] = 65_530 + r.below(cap as u64 - 65_530) as i64;
            }
            ops.push(o);
        }
    }
    let base = [14, 14, 14, 14, 6, 3, 3, 2][size as usize];
    let n = if long && size == 0 { r.range(100, 600) } else { r.range(2, if deep { base * 3 } else { base * 2 }) };
    if tour {
        let mut all: Vec<u16> = INPLACE.iter().chain(FRESH).chain(&[BUILD, FILLED]).cloned().filter(|k| *k != CLEAR).collect();
        for i in (1..all.len()).rev() {
            all.swap(i, r.below(i as u64 + 1) as usize);
        }
        for k in all {
            let mut o = op(&mut r, k, cap);
            if r.chance(1, 12) {
                o.fault = Some(pick_fault(&mut r, &[fk::SCALAR, fk::CLONE, fk::EQ, fk::ALLOC], cap as u64 + 3));
            }
            ops.push(o);
        }
        p.threads = vec![ops];
        return p;
    }
    let (wi, wf) = if focus == "C06" { (3, 7) } else if focus == "C05" { (8, 1) } else { (5, 4) };
    for _ in 0..n {
        let x = r.below(10);
        let k = if x < wi { r.pick(INPLACE) } else if x < wi + wf { r.pick(FRESH) } else { r.pick(CONS) };
        let mut o = op(&mut r, k, cap);
        if r.chance(2, 5) {
            let kinds: &[usize] = if focus == "C09" {
                &[fk::SCALAR, fk::SCALAR, fk::CLONE, fk::CLONE, fk::EQ, fk::ALLOC, fk::BASIS, fk::KEY]
            } else {
                &[fk::SCALAR, fk::SCALAR, fk::CLONE, fk::CLONE, fk::EQ, fk::ALLOC, fk::BASIS]
            };
            o.fault = Some(pick_fault(&mut r, kinds, cap as u64 + 3));
        }
        ops.push(o);
    }
    p.threads = vec![ops];
    p
}

pub fn op(r: &mut Rng, k: u16, cap: usize) -> Op {
    let mut a = vec![
        r.below(NREG as u64) as i64,
        r.below(NREG as u64) as i64,
        r.below(NREG as u64) as i64,
        pick_val(r),
        r.below(cap as u64) as i64,
        r.below(16) as i64,
    ];
    let pairs = match k {
        MAKE | BUILD => {
            // half of the vectors cover only a prefix of the keys: lengths then differ
            let lim = if r.chance(1, 2) { cap } else { 1 + r.below(cap as u64) as usize };
            let n = match r.below(8) {
                0 => 0,
                1 => 1,
                _ => r.below(1 + lim.min(60) as u64),
            };
            Some((n, lim))
        }
        INSERTN => Some((r.below(6), cap)),
        _ => None,
    };
    if let Some((n, lim)) = pairs {
        for _ in 0..n {
            a.push(r.below(lim as u64) as i64);
            a.push(pick_val(r));
        }
    }
    Op { k, a, fault: None }
}

const NKINDS: u64 = 18;
macro_rules! kinds {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<Dense<Zp>>($($a),*),
            1 => $f::<Sparse<Zp>>($($a),*),
            2 => $f::<Wrapped<Zp, 3>>($($a),*),
            3 => $f::<Tens<Zp, 2>>($($a),*),
            4 => $f::<Dense<f64>>($($a),*),
            5 => $f::<Sparse<f64>>($($a),*),
            6 => $f::<Dense<f32>>($($a),*),
            7 => $f::<Sparse<f32>>($($a),*),
            8 => $f::<Wrapped<f32, 2>>($($a),*),
            9 => $f::<Tens<f64, 5>>($($a),*),
            10 => $f::<Tens<Zp, 1>>($($a),*),
            11 => $f::<Wrapped<Zp, 10>>($($a),*),
            12 => $f::<Tens<Zp, 26>>($($a),*),
            13 => $f::<Wrapped<f64, 7>>($($a),*),
            14 => $f::<Dense<Zp>>($($a),*),
            15 => $f::<WSparse<Zp>>($($a),*),
            16 => $f::<WSparse<f64>>($($a),*),
            _ => $f::<Sparse<Zp>>($($a),*),
        }
    };
}

fn dom<K: Kind>(s: usize) -> usize {
    K::domain(s)
}
pub fn domain_of(kind: i64, size: usize) -> usize {
    kinds!(kind, dom, size)
}
pub fn exec(p: &Plan) {
    kinds!(p.p(0), run, p)
}

pub fn scalar_of<F: Dom>(o: &Op) -> (F, Result<Sc<F>, i8>) {
    if o.arg(5) & 1 == 1 {
        let s = (o.arg(3) % 13) as i8;
        (F::of(s as i64), Err(s))
    } else {
        let v = F::of(o.arg(3));
        (v, Ok(Sc::new(v)))
    }
}
pub fn rat_of<F: Dom>(o: &Op) -> (F, Result<Rat<F>, i8>) {
    if o.arg(5) & 1 == 1 {
        let s = [1i8, 2, 4, -1, -2, -4][o.idx(3, 6)];
        (F::of(s as i64), Err(s))
    } else {
        let v = F::divisor(o.arg(3));
        (v, Ok(Rat(v)))
    }
}

pub fn name(k: u16) -> &'static str {
    match k {
        MAKE | BUILD => "from_iterator",
        FILLED => "from",
        OF_DIM => "from_dimension",
        RESIZE => "resize",
        SLICE => "as_mut_slice",
        FROM_KEY => "from_key",
        FROM_KEY_SC => "from_key_scalar",
        IADD => "add_inplace",
        ISUB => "sub_inplace",
        INEG => "uminus_inplace",
        ILMUL => "scalar_lmultiply_inplace",
        IRMUL => "scalar_rmultiply_inplace",
        IRDIV => "scalar_rdivide_inplace",
        ILDIV => "scalar_ldivide_inplace",
        F_ARM => "add_scalar_rmultiply",
        F_ALM => "add_scalar_lmultiply",
        F_SRM => "sub_scalar_rmultiply",
        F_SLM => "sub_scalar_lmultiply",
        F_ARD => "add_scalar_rdivide",
        F_ALD => "add_scalar_ldivide",
        F_SRD => "sub_scalar_rdivide",
        F_SLD => "sub_scalar_ldivide",
        INSERT1 => "insert_single",
        INSERTN => "insert",
        ERASE => "erase",
        KADD => "add_scalar_multiply (one key)",
        KSUB => "sub_scalar_multiply (one key)",
        KADDDIV => "add_scalar_divide (one key)",
        KSUBDIV => "sub_scalar_divide (one key)",
        GETMUT => "get_mut",
        SWAP => "swap",
        CLEAR => "clear",
        COPY => "to_owned",
        NEG => "uminus",
        ADD => "add",
        SUB => "sub",
        LMUL => "scalar_lmultiply",
        RMUL => "scalar_rmultiply",
        RDIV => "scalar_rdivide",
        LDIV => "scalar_ldivide",
        DUP => "clone",
        _ => "?",
    }
}

pub fn pairs(o: &Op, cap: usize) -> Vec<(usize, i64)> {
    o.rest(6).chunks_exact(2).map(|c| (c[0].rem_euclid(cap as i64) as usize, c[1])).collect()
}

macro_rules! with_scalar {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Ok($x) => $e,
            Err($x) => $e,
        }
    };
}

pub fn run<K: Kind>(p: &Plan) {
    probe(K::PROBE);
    note_domain::<K::F>();
    let cap = K::domain(p.p(1) as usize);
    if cap > 256 {
        probe(pr::LARGE);
    }
    let mut regs: Vec<K::V> = (0..NREG).map(|_| K::V::new()).collect();
    let mut model: Vec<Vec<K::F>> = vec![vec![K::F::ZERO; cap]; NREG];
    for (i, o) in p.threads[0].iter().enumerate() {
        simrt::sched::set_cur_op(i as i32);
        step::<K>(o, cap, &mut regs, &mut model);
        simrt::sh().ops_done += 1;
    }
    drop(regs);
    check_all_released();
}

/// expected coefficients of the destination after an in-place or fresh operation;
/// None: not exactly representable in this field
pub fn expect<K: Kind>(o: &Op, cap: usize, old: &[K::F], x: &[K::F], y: &[K::F]) -> Option<Vec<K::F>> {
    let z = K::F::ZERO;
    let (s, _) = scalar_value::<K::F>(o);
    let (q, _) = rat_value::<K::F>(o);
    let key = o.idx(4, cap);
    let mut mid: Vec<K::F> = vec![];
    let mut zip = |f: &mut dyn FnMut(usize) -> K::F| (0..cap).map(|i| f(i)).collect::<Vec<_>>();
    let r: Vec<K::F> = match o.k {
        MAKE | BUILD => {
            let mut v = vec![z; cap];
            for (k, c) in pairs(o, cap) {
                v[k] = v[k].m_add(K::F::of(c));
                mid.push(v[k]);
            }
            v
        }
        FROM_KEY => {
            let mut v = vec![z; cap];
            v[key] = K::F::ONE;
            v
        }
        FROM_KEY_SC => {
            let mut v = vec![z; cap];
            v[key] = s;
            v
        }
        IADD => zip(&mut |i| old[i].m_add(x[i])),
        ISUB => zip(&mut |i| old[i].m_sub(x[i])),
        INEG => zip(&mut |i| old[i].m_neg()),
        ILMUL | IRMUL => zip(&mut |i| old[i].m_mul(s)),
        IRDIV | ILDIV => zip(&mut |i| old[i].m_div(q)),
        F_ARM | F_ALM => zip(&mut |i| {
            mid.push(x[i].m_mul(s));
            old[i].m_add(x[i].m_mul(s))
        }),
        F_SRM | F_SLM => zip(&mut |i| {
            mid.push(x[i].m_mul(s));
            old[i].m_sub(x[i].m_mul(s))
        }),
        F_ARD | F_ALD => zip(&mut |i| {
            mid.push(x[i].m_div(q));
            old[i].m_add(x[i].m_div(q))
        }),
        F_SRD | F_SLD => zip(&mut |i| {
            mid.push(x[i].m_div(q));
            old[i].m_sub(x[i].m_div(q))
        }),
        INSERT1 => {
            let mut v = old.to_vec();
            v[key] = s;
            v
        }
        INSERTN => {
            let mut v = old.to_vec();
            for (k, c) in pairs(o, cap) {
                v[k] = K::F::of(c);
            }
            v
        }
        ERASE => {
            let mut v = old.to_vec();
            v[key] = z;
            v
        }
        KADD => {
            let mut v = old.to_vec();
            v[key] = v[key].m_add(s);
            v
        }
        KSUB => {
            let mut v = old.to_vec();
            v[key] = v[key].m_sub(s);
            v
        }
        KADDDIV => {
            let mut v = old.to_vec();
            let t = K::F::ONE.m_div(q);
            mid.push(t);
            v[key] = v[key].m_add(t);
            v
        }
        KSUBDIV => {
            let mut v = old.to_vec();
            let t = K::F::ONE.m_div(q);
            mid.push(t);
            v[key] = v[key].m_sub(t);
            v
        }
        CLEAR => vec![z; cap],
        FILLED => {
            let mut v = fill_values::<K::F>(o, cap);
            v.resize(cap, z);
            v
        }
        OF_DIM => vec![z; cap],
        RESIZE if K::is_dense() => {
            let mut v = old.to_vec();
            v.truncate(length(o, cap));
            v.resize(cap, z);
            v
        }
        COPY | DUP => x.to_vec(),
        NEG => zip(&mut |i| x[i].m_neg()),
        ADD => zip(&mut |i| x[i].m_add(y[i])),
        SUB => zip(&mut |i| x[i].m_sub(y[i])),
        LMUL | RMUL => zip(&mut |i| x[i].m_mul(s)),
        RDIV | LDIV => zip(&mut |i| x[i].m_div(q)),
        _ => old.to_vec(),
    };
    if r.iter().all(|v| v.safe()) && mid.iter().all(|v| v.safe()) {
        Some(r)
    } else {
        None
    }
}

/// a number of coordinates; sometimes more than there are keys in use
fn length(o: &Op, cap: usize) -> usize {
    o.idx(4, cap) + [0, 0, 1, 9][(o.arg(5) >> 2 & 3) as usize]
}
fn fill_values<F: Dom>(o: &Op, cap: usize) -> Vec<F> {
    let n = if o.arg(5) & 4 == 4 { cap } else { 1 + o.idx(4, cap) };
    let a = 1 + o.arg(3).rem_euclid(10);
    (0..n as i64).map(|i| F::of((i * a + o.arg(2)) % 11 - 4)).collect()
}

fn scalar_value<F: Dom>(o: &Op) -> (F, ()) {
    let s = if o.arg(5) & 1 == 1 { F::of((o.arg(3) % 13) as i64) } else { F::of(o.arg(3)) };
    (s, ())
}
fn rat_value<F: Dom>(o: &Op) -> (F, ()) {
    let q = if o.arg(5) & 1 == 1 { F::of([1i64, 2, 4, -1, -2, -4][o.idx(3, 6)]) } else { F::divisor(o.arg(3)) };
    (q, ())
}

pub fn fresh<K: Kind>(o: &Op, cap: usize, regs: &[K::V], by_val: Option<K::V>) -> Box<dyn FnOnce() -> K::V + 'static> {
    // the closure runs library code only; references are extended for the call
    let x: &'static K::V = unsafe { &*(&regs[o.idx(1, NREG)] as *const K::V) };
    let y: &'static K::V = unsafe { &*(&regs[o.idx(2, NREG)] as *const K::V) };
    let key = K::key(o.idx(4, cap));
    match o.k {
        MAKE | BUILD => {
            let items: Vec<(K::K, Sc<K::F>)> = pairs(o, cap).into_iter().map(|(k, c)| (K::key(k), Sc::new(K::F::of(c)))).collect();
            Box::new(move || K::V::from_iterator(items))
        }
        FILLED => {
            let vals = fill_values::<K::F>(o, cap);
            let c = |v: &[K::F]| v.iter().map(|x| Sc::new(*x)).collect::<Vec<_>>();
            if K::is_dense() && o.arg(5) & 2 == 2 {
                let c = c(&vals);
                Box::new(move || K::exact(c).unwrap())
            } else {
                let items: Vec<(K::K, Sc<K::F>)> = c(&vals).into_iter().enumerate().map(|(i, x)| (K::key(i), x)).collect();
                Box::new(move || K::V::from_iterator(items))
            }
        }
        OF_DIM => {
            let n = length(o, cap);
            Box::new(move || K::of_dim(n).unwrap_or_else(K::V::new))
        }
        FROM_KEY => Box::new(move || K::V::from_key(key)),
        FROM_KEY_SC => {
            let (_, s) = scalar_of::<K::F>(o);
            Box::new(move || with_scalar!(s, v => K::V::from_key_scalar(key, v)))
        }
        COPY => Box::new(move || Vector::to_owned(x)),
        DUP => Box::new(move || K::dup(x)),
        NEG => Box::new(move || x.uminus()),
        ADD => match by_val {
            Some(v) => Box::new(move || x.add(v)),
            None => Box::new(move || x.add(y)),
        },
        SUB => match by_val {
            Some(v) => Box::new(move || x.sub(v)),
            None => Box::new(move || x.sub(y)),
        },
        LMUL => {
            let (_, s) = scalar_of::<K::F>(o);
            Box::new(move || with_scalar!(s, v => x.scalar_lmultiply(v)))
        }
        RMUL => {
            let (_, s) = scalar_of::<K::F>(o);
            Box::new(move || with_scalar!(s, v => x.scalar_rmultiply(v)))
        }
        RDIV => {
            let (_, s) = rat_of::<K::F>(o);
            Box::new(move || with_scalar!(s, v => x.scalar_rdivide(v)))
        }
        _ => {
            let (_, s) = rat_of::<K::F>(o);
            Box::new(move || with_scalar!(s, v => x.scalar_ldivide(v)))
        }
    }
}

pub fn inplace<K: Kind>(o: &Op, cap: usize, dst: &mut K::V, src: Src<'_, K::V>) {
    macro_rules! bin {
        ($m:ident) => {
            match src {
                Src::Ref(x) => {
                    dst.$m(x);
                }
                Src::Val(x) => {
                    dst.$m(x);
                }
            }
        };
    }
    macro_rules! fused {
        ($m:ident, $s:expr) => {{
            let s = $s;
            match src {
                Src::Ref(x) => {
                    with_scalar!(s, v => { dst.$m(x, v); })
                }
                Src::Val(x) => {
                    with_scalar!(s, v => { dst.$m(x, v); })
                }
            }
        }};
    }
    let h = simrt::host::<(Result<Sc<K::F>, i8>, Result<Rat<K::F>, i8>, K::K)>;
    let (sc, rt, key) = h(|| (scalar_of::<K::F>(o).1, rat_of::<K::F>(o).1, K::key(o.idx(4, cap))));
    match o.k {
        IADD => bin!(add_inplace),
        ISUB => bin!(sub_inplace),
        INEG => {
            dst.uminus_inplace();
        }
        ILMUL => with_scalar!(sc, v => { dst.scalar_lmultiply_inplace(v); }),
        IRMUL => with_scalar!(sc, v => { dst.scalar_rmultiply_inplace(v); }),
        IRDIV => with_scalar!(rt, v => { dst.scalar_rdivide_inplace(v); }),
        ILDIV => with_scalar!(rt, v => { dst.scalar_ldivide_inplace(v); }),
        F_ARM => fused!(add_scalar_rmultiply, sc),
        F_ALM => fused!(add_scalar_lmultiply, sc),
        F_SRM => fused!(sub_scalar_rmultiply, sc),
        F_SLM => fused!(sub_scalar_lmultiply, sc),
        F_ARD => fused!(add_scalar_rdivide, rt),
        F_ALD => fused!(add_scalar_ldivide, rt),
        F_SRD => fused!(sub_scalar_rdivide, rt),
        F_SLD => fused!(sub_scalar_ldivide, rt),
        INSERT1 => with_scalar!(sc, v => { dst.insert_single(&key, v); }),
        INSERTN => {
            let items: Vec<(K::K, Sc<K::F>)> =
                simrt::host(|| pairs(o, cap).into_iter().map(|(k, c)| (K::key(k), Sc::new(K::F::of(c)))).collect());
            dst.insert(items)
        }
        ERASE => {
            if o.arg(5) & 2 == 2 {
                dst.erase(key)
            } else {
                dst.erase(&key)
            }
        }
        KADD => with_scalar!(sc, v => { dst.add_scalar_multiply(key, v); }),
        KSUB => with_scalar!(sc, v => { dst.sub_scalar_multiply(&key, v); }),
        KADDDIV => {
            with_scalar!(rt, v => { dst.add_scalar_divide(key, v); })
        }
        KSUBDIV => {
            with_scalar!(rt, v => { dst.sub_scalar_divide(&key, v); })
        }
        CLEAR => dst.clear(),
        RESIZE => {
            K::resize(dst, length(o, cap));
        }
        _ => {}
    }
}

pub enum Src<'a, V> {
    Ref(&'a V),
    Val(V),
}

fn others<K: Kind>(o: &Op, skip: &[usize], cap: usize, regs: &[K::V], model: &mut [Vec<K::F>]) {
    for i in 0..NREG {
        if skip.contains(&i) {
            continue;
        }
        match observe::<K>(&regs[i], cap) {
            Ok(v) => {
                if let Some(j) = diff(&v, &model[i]) {
                    violation(
                        "operand",
                        &format!(
                            "{} changes coefficient {} of a vector it only reads: {} became {}",
                            name(o.k),
                            j,
                            model[i][j].text(),
                            v[j].text()
                        ),
                    );
                    model[i] = v;
                }
            }
            Err(e) => {
                violation("operand", &format!("{} disturbs a vector it only reads: {}", name(o.k), e));
                return;
            }
        }
    }
}

pub fn step<K: Kind>(o: &Op, cap: usize, regs: &mut Vec<K::V>, model: &mut Vec<Vec<K::F>>) {
    let d = o.idx(0, NREG);
    let xi = o.idx(1, NREG);
    let yi = o.idx(2, NREG);
    let what = name(o.k);
    simrt::log(o.k as u64);
    match o.k {
        GETMUT | SLICE => {
            let key = o.idx(4, cap);
            let v = K::F::of(o.arg(3));
            if !v.safe() {
                return;
            }
            let nv = Sc::new(v);
            let dst = &mut regs[d];
            let k = K::key(key);
            let part = o.arg(5) & 1 == 1;
            let slice = o.k == SLICE;
            let done = match call_op(what, o, || match if slice { None } else { dst.get_mut(&k) } {
                None if slice => K::write_slice(dst, key, part, nv),
                Some(x) => {
                    *x = nv;
                    true
                }
                None => false,
            }) {
                Call::Done(b) => b,
                _ => false,
            };
            if done {
                model[d][key] = v;
            }
            settle::<K>(o, d, cap, regs, model, "inplace");
            others::<K>(o, &[d], cap, regs, model);
        }
        SWAP => {
            if d == xi {
                return;
            }
            let mut dst = std::mem::replace(&mut regs[d], K::V::new());
            let mut src = std::mem::replace(&mut regs[xi], K::V::new());
            let by_val = o.arg(5) & 2 == 2;
            if by_val {
                // swapping with a temporary: the temporary's content arrives
                let tmp = match call("to_owned", || Vector::to_owned(&src)) {
                    Some(t) => t,
                    None => return,
                };
                let _ = call_op(what, o, || dst.swap(tmp));
                regs[d] = dst;
                regs[xi] = src;
                model[d] = model[xi].clone();
            } else {
                let _ = call_op(what, o, || dst.swap(&mut src));
                regs[d] = dst;
                regs[xi] = src;
                model.swap(d, xi);
            }
            settle::<K>(o, d, cap, regs, model, "inplace");
            settle::<K>(o, xi, cap, regs, model, "inplace");
            others::<K>(o, &[d, xi], cap, regs, model);
        }
        k if k < 10 || k >= 40 => {
            let want = match expect::<K>(o, cap, &model[d], &model[xi], &model[yi]) {
                Some(w) => w,
                None => {
                    probe(pr::SKIPPED_INEXACT);
                    return;
                }
            };
            let by_val = |regs: &Vec<K::V>| {
                if (k == ADD || k == SUB) && o.arg(5) & 2 == 2 {
                    call("to_owned", || Vector::to_owned(&regs[yi]))
                } else {
                    None
                }
            };
            let bv = by_val(regs);
            let f = fresh::<K>(o, cap, regs, bv);
            let mut res = call_op(what, o, f);
            others::<K>(o, &[], cap, regs, model);
            if let Call::Cut = res {
                probe(pr::RETRIED);
                let bv = by_val(regs);
                let f = fresh::<K>(o, cap, regs, bv);
                res = match call(what, f) {
                    Some(v) => Call::Done(v),
                    None => Call::Bad,
                };
                others::<K>(o, &[], cap, regs, model);
            }
            if let Call::Done(v) = res {
                let class = if k < 10 { "build" } else { "outofplace" };
                if matches!(k, ADD | SUB | LMUL | RMUL) {
                    cancelled::<K>(o, &v, &model[xi], &want, "inplace");
                }
                regs[d] = v;
                model[d] = want;
                settle::<K>(o, d, cap, regs, model, class);
                others::<K>(o, &[d], cap, regs, model);
            }
        }
        _ => {
            let want = match expect::<K>(o, cap, &model[d], &model[xi], &model[yi]) {
                Some(w) => w,
                None => {
                    probe(pr::SKIPPED_INEXACT);
                    return;
                }
            };
            let mut dst = std::mem::replace(&mut regs[d], K::V::new());
            let uses_src = matches!(o.k, IADD | ISUB | F_ARM..=F_SLD);
            let src = if !uses_src {
                None
            } else if d == xi || o.arg(5) & 2 == 2 {
                let r: &K::V = if d == xi { &dst } else { &regs[xi] };
                match call("to_owned", || Vector::to_owned(r)) {
                    Some(v) => Some(v),
                    None => {
                        regs[d] = dst;
                        return;
                    }
                }
            } else {
                None
            };
            let sref = match src {
                Some(v) => Src::Val(v),
                None => Src::Ref(&regs[if d == xi { (d + 1) % NREG } else { xi }]),
            };
            let old = model[d].clone();
            let before = K::stored(&dst).len();
            let res = call_op(what, o, || inplace::<K>(o, cap, &mut dst, sref));
            if K::stored(&dst).len() > before {
                probe(pr::GREW);
            }
            regs[d] = dst;
            match res {
                Call::Done(()) => {
                    if want.iter().zip(&old).any(|(w, x)| *w == K::F::ZERO && *x != K::F::ZERO) {
                        probe(pr::CANCEL);
                    }
                    if matches!(o.k, IADD | ISUB | ILMUL | IRMUL) {
                        cancelled::<K>(o, &regs[d], &old, &want, "inplace");
                    }
                    model[d] = want;
                    settle::<K>(o, d, cap, regs, model, "inplace");
                }
                Call::Cut => {
                    match observe::<K>(&regs[d], cap) {
                        Ok(v) => {
                            let ok = |i: usize| {
                                v[i] == old[i]
                                    || v[i] == want[i]
                                    || (o.k == INSERTN && pairs(o, cap).iter().any(|(k, c)| *k == i && K::F::of(*c) == v[i]))
                            };
                            if let Some(i) = (0..cap).find(|&i| !ok(i)) {
                                violation(
                                    "torn",
                                    &format!(
                                        "{} cut short leaves coefficient {} at {}: neither the old {} nor the new {}",
                                        what,
                                        i,
                                        v[i].text(),
                                        old[i].text(),
                                        want[i].text()
                                    ),
                                );
                            }
                            if diff(&v, &old).is_some() && diff(&v, &want).is_some() {
                                probe(pr::PARTIAL);
                            }
                            model[d] = v;
                            settle::<K>(o, d, cap, regs, model, "inplace");
                        }
                        Err(e) => {
                            violation("torn", &format!("{} cut short: {}", what, e));
                        }
                    }
                }
                Call::Bad => {}
            }
            others::<K>(o, &[d], cap, regs, model);
        }
    }
}

/// A sparse vector does not keep keys whose coefficient just became zero.
fn cancelled<K: Kind>(o: &Op, v: &K::V, old: &[K::F], want: &[K::F], class: &str) {
    if K::is_dense() {
        return;
    }
    if let Some((i, _)) = K::stored(v).iter().find(|(i, c)| *c == K::F::ZERO && *i < old.len() && old[*i] != K::F::ZERO && want[*i] == K::F::ZERO) {
        violation(class, &format!("after {} key {} is still stored although its coefficient became zero", name(o.k), i));
    }
}

/// The destination must read back as the model says, by storage and by key.
fn settle<K: Kind>(o: &Op, d: usize, cap: usize, regs: &[K::V], model: &mut [Vec<K::F>], class: &str) {
    let v = match observe::<K>(&regs[d], cap) {
        Ok(v) => v,
        Err(e) => {
            violation(class, &format!("after {}: {}", name(o.k), e));
            return;
        }
    };
    log_vals(&v);
    if let Some(i) = diff(&v, &model[d]) {
        violation(
            class,
            &format!("after {} coefficient {} is {} instead of {}", name(o.k), i, v[i].text(), model[d][i].text()),
        );
        model[d] = v.clone();
    }
    if let Some(w) = call("get", || by_key::<K>(&regs[d], cap)) {
        if let Some(i) = diff(&v, &w) {
            violation(class, &format!("get at key {} answers {} but {} is stored", i, w[i].text(), v[i].text()));
        }
    }
}
