//! Several threads working on the same read-only vectors and bases, each
//! writing only to vectors of its own: every result against the exact one.
use crate::bases::*;
use crate::common::*;
use crate::scalar::*;
use crate::tensorw::{exp_model, log_model, Tn, Words};
use crate::vecw::{self, Src, NREG};
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{FreeTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::{Vector, VectorWithDegree};
use simrt::sched;
use simrt::{fk, pr, probe, violation, Op, Plan, Rng};
use std::fmt::Write;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

pub const MUL: u16 = 60;
pub const COMM: u16 = 61;
pub const EXP: u16 = 62;
pub const LOG: u16 = 63;
pub const ADDMUL: u16 = 64;
pub const IMUL: u16 = 65;
pub const SUBMUL: u16 = 66;
pub const FMEXP: u16 = 67;
pub const ISCALL: u16 = 68;
pub const IDIVR: u16 = 69;
pub const RENDER: u16 = 70;
pub const KEYS: u16 = 71;
pub const EQ: u16 = 72;
pub const READ: u16 = 73;
pub const DEGREE: u16 = 74;
pub const WORDS: u16 = 75;

const NK: u64 = 12;

fn name(k: u16) -> &'static str {
    match k {
        MUL => "multiply",
        COMM => "commutator",
        EXP => "exp",
        LOG => "log",
        ADDMUL => "add_mul",
        IMUL => "multiply_inplace",
        SUBMUL => "sub_mul",
        FMEXP => "fmexp",
        ISCALL => "mul_scal_lprod",
        IDIVR => "mul_rat_rdiv",
        RENDER => "rendering",
        KEYS => "enumerating keys",
        EQ => "comparing",
        READ => "get",
        DEGREE => "degree",
        WORDS => "key arithmetic",
        k => vecw::name(k),
    }
}

// op args as in vecw; args[5] >> 4 selects the pool
pub fn gen(seed: u64, _focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("share", seed);
    // a crowd of callers now and then
    let crowd = r.chance(1, 60);
    let nt = if crowd { r.range(6, 18) } else { r.range(2, if deep { 5 } else { 4 }) };
    let size = if r.chance(1, if deep { 4 } else { 12 }) { r.range(2, 3) } else { r.below(2) as i64 };
    let long = !crowd && r.chance(1, 120);
    let size = if long || crowd {
        0
    } else if r.chance(1, 60) {
        4
    } else {
        size
    };
    p.params = vec![(r.next() >> 2) as i64, size];
    p.hash_seed = r.next() >> 1;
    p.sched_seed = r.next() >> 1;
    p.plain = r.pick(&[3, 10, 20, 50, 200, 1000, 4000]);
    p.atomic = r.pick(&[0, 2, 5]);
    // a few pools per run: threads meet on them
    let pools: Vec<i64> = (0..r.range(1, 3)).map(|_| r.below(NK) as i64).collect();
    let same = r.chance(1, 3);
    let k0 = pick_op(&mut r);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..if crowd { r.range(1, 3) } else if long { r.range(30, 120) } else if size == 4 { r.range(2, 4) } else { r.range(2, if deep { 10 } else { 6 }) } {
            let pool = r.pick(&pools);
            let k = if same && r.chance(2, 3) { k0 } else { pick_op(&mut r) };
            let mut o = vecw::op(&mut r, k, 64);
            o.a[5] |= pool << 4;
            if r.chance(1, 10) && k < 70 {
                o.fault = Some(pick_fault(&mut r, &[fk::SCALAR, fk::CLONE, fk::ALLOC], 30));
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    p
}

fn pick_op(r: &mut Rng) -> u16 {
    match r.below(10) {
        0 | 1 => r.pick(&[MUL, COMM, ADDMUL, IMUL, SUBMUL, ISCALL, IDIVR]),
        2 => r.pick(&[EXP, LOG, FMEXP]),
        3 | 4 => r.pick(&[RENDER, KEYS, EQ, READ, DEGREE, WORDS]),
        5 | 6 => r.pick(vecw::FRESH),
        7 => r.pick(&[vecw::FROM_KEY, vecw::FROM_KEY_SC, vecw::BUILD]),
        _ => r.pick(&vecw::INPLACE[..25]),
    }
}

/// What only some kinds can do.
pub trait SK: Kind {
    fn alg(_k: u16, _x: &Self::V, _y: &Self::V, _own: &mut Self::V, _to: u32, _s: i64) -> Option<Option<Self::V>> {
        None
    }
    fn alg_model(_k: u16, _x: &[Self::F], _y: &[Self::F], _own: &[Self::F], _to: u32, _s: i64, _cap: usize) -> Option<Vec<Self::F>> {
        None
    }
    fn has_alg() -> bool {
        false
    }
    fn render(_v: &Self::V, _w: &mut String) -> bool {
        false
    }
    fn key_name(i: usize) -> String {
        format!("<{}>", i)
    }
    /// indices of the first n keys, as the basis enumerates them
    fn keys(n: usize) -> Vec<usize>;
    fn degree(_v: &Self::V) -> Option<u32> {
        None
    }
    fn degree_model(_len: usize) -> u32 {
        0
    }
    /// index -> key -> index, and the text of the key
    fn word(i: usize) -> (usize, String);
}

impl<F: Dom> SK for Dense<F> {
    fn render(v: &Self::V, w: &mut String) -> bool {
        write!(w, "{}", v).is_ok()
    }
    fn keys(n: usize) -> Vec<usize> {
        SimBasis::iter_keys().take(n).map(|k| SimBasis::key_to_index(&k)).collect()
    }
    fn word(i: usize) -> (usize, String) {
        (i, format!("<{}>", i))
    }
}
impl<F: Dom> SK for Sparse<F> {
    fn keys(n: usize) -> Vec<usize> {
        SimBasis::iter_keys().take(n).map(|k| SimBasis::key_to_index(&k)).collect()
    }
    fn word(i: usize) -> (usize, String) {
        (i, format!("<{}>", i))
    }
}
fn tkeys<const N: u32>(n: usize) -> Vec<usize> {
    TensorBasis::<N>::iter_keys().take(n).map(|k| TensorBasis::<N>::key_to_index(&k)).collect()
}
fn tword<const N: u32>(i: usize) -> (usize, String) {
    let k: TensorKey<N> = TensorBasis::<N>::index_to_key(i);
    let mut s = String::new();
    let _ = write!(s, "{}", k);
    (TensorBasis::<N>::key_to_index(&k), s)
}

impl<F: Dom, const N: u32> SK for Tens<F, N> {
    fn has_alg() -> bool {
        true
    }
    fn alg(k: u16, x: &Tn<F, N>, y: &Tn<F, N>, own: &mut Tn<F, N>, to: u32, s: i64) -> Option<Option<Tn<F, N>>> {
        Some(match k {
            MUL => Some(x.multiply(y, Some(to))),
            COMM => Some(x.commutator(y, Some(to))),
            EXP => Some(x.exp()),
            LOG => Some(x.log()),
            ADDMUL => {
                own.add_mul(x, y, Some(to));
                None
            }
            SUBMUL => {
                own.sub_mul(x, y, Some(to));
                None
            }
            FMEXP => {
                own.fmexp(x);
                None
            }
            ISCALL => {
                own.mul_scal_lprod(x, simrt::host(|| Sc::new(F::of(s))), Some(to));
                None
            }
            IDIVR => {
                own.mul_rat_rdiv(x, Rat(F::divisor(s)), Some(to));
                None
            }
            _ => {
                own.multiply_inplace(x, Some(to));
                None
            }
        })
    }
    fn alg_model(k: u16, x: &[F], y: &[F], own: &[F], to: u32, s: i64, cap: usize) -> Option<Vec<F>> {
        let top = word_degree(N as usize, cap - 1);
        let w = Words::new(N as usize, top);
        let to = to.min(top);
        match k {
            MUL => w.mul(x, y, to, F::ONE),
            COMM => {
                let a = w.mul(x, y, to, F::ONE)?;
                let b = w.mul(y, x, to, F::ONE)?;
                let c: Vec<F> = a.iter().zip(&b).map(|(x, y)| x.m_sub(*y)).collect();
                if c.iter().all(|x| x.safe()) { Some(c) } else { None }
            }
            EXP | LOG | FMEXP => {
                if F::PROBE != pr::EXACT || F::MAXDEG > top {
                    return None;
                }
                let over = |x: &[F]| x.iter().enumerate().any(|(i, c)| *c != F::ZERO && w.deg[i] > F::MAXDEG);
                if over(x) || (k == EXP && x[0] != F::ZERO) || (k == FMEXP && over(own)) {
                    return None;
                }
                let mut unit = vec![F::ZERO; cap];
                unit[0] = F::ONE;
                Some(match k {
                    EXP => exp_model(&w, x, F::MAXDEG, &unit),
                    FMEXP => exp_model(&w, x, F::MAXDEG, own),
                    _ => log_model(&w, x, F::MAXDEG),
                })
            }
            SUBMUL => {
                let a = w.mul(x, y, to, F::MONE)?;
                let c: Vec<F> = a.iter().zip(own).map(|(x, y)| x.m_add(*y)).collect();
                if c.iter().all(|x| x.safe()) { Some(c) } else { None }
            }
            ISCALL => w.mul(own, x, to, F::of(s)),
            IDIVR => w.mul(own, x, to, F::ONE.m_div(F::divisor(s))),
            ADDMUL => {
                let a = w.mul(x, y, to, F::ONE)?;
                let c: Vec<F> = a.iter().zip(own).map(|(x, y)| x.m_add(*y)).collect();
                if c.iter().all(|x| x.safe()) { Some(c) } else { None }
            }
            _ => w.mul(own, x, to, F::ONE),
        }
    }
    fn render(v: &Self::V, w: &mut String) -> bool {
        write!(w, "{}", v).is_ok()
    }
    fn key_name(i: usize) -> String {
        key_text(&word(N as usize, i))
    }
    fn keys(n: usize) -> Vec<usize> {
        tkeys::<N>(n)
    }
    fn degree(v: &Self::V) -> Option<u32> {
        Some(v.degree())
    }
    fn degree_model(len: usize) -> u32 {
        if len == 0 { 0 } else { word_degree(N as usize, len - 1) }
    }
    fn word(i: usize) -> (usize, String) {
        tword::<N>(i)
    }
}
impl<F: Dom, const N: u32> SK for Wrapped<F, N> {
    fn render(v: &Self::V, w: &mut String) -> bool {
        write!(w, "{}", **v).is_ok()
    }
    fn key_name(i: usize) -> String {
        key_text(&word(N as usize, i))
    }
    fn keys(n: usize) -> Vec<usize> {
        tkeys::<N>(n)
    }
    fn word(i: usize) -> (usize, String) {
        tword::<N>(i)
    }
}

pub struct Pool<K: Kind> {
    v: Vec<K::V>,
    m: Vec<Vec<K::F>>,
    stored: Vec<Vec<(usize, K::F)>>,
    cap: usize,
    /// how many leading coordinates are stored
    lim: Vec<usize>,
}

/// A vector with these coefficients, made without the library's arithmetic.
fn make<K: Kind>(m: &[K::F], lim: usize) -> K::V {
    match K::exact(m[..lim].iter().map(|x| Sc::new(*x)).collect()) {
        Some(v) => v,
        None => K::V::from_iterator(
            m.iter().enumerate().filter(|(_, x)| **x != K::F::ZERO).map(|(i, x)| (K::key(i), Sc::new(*x))),
        ),
    }
}

fn make_pool<K: Kind>(r: &mut Rng, size: usize) -> Pool<K> {
    let cap = K::domain(size);
    let mut p = Pool { v: vec![], m: vec![], stored: vec![], cap, lim: vec![] };
    for n in 0..NREG {
        let lim = if r.chance(1, 2) { cap } else { 1 + r.below(cap as u64) as usize };
        let mut m = vec![K::F::ZERO; cap];
        for i in 0..lim {
            if r.chance(2, 3) {
                m[i] = K::F::of(r.range(-3, 3));
            }
        }
        // the second has constant term one, the third none: exp and log apply
        if n == 1 {
            m[0] = K::F::ONE;
        }
        if n == 2 {
            m[0] = K::F::ZERO;
        }
        let v = make::<K>(&m, lim);
        p.lim.push(lim);
        p.stored.push(K::stored(&v));
        p.v.push(v);
        p.m.push(m);
    }
    p
}

macro_rules! pools {
    ($m:ident) => {
        $m! { a 0 Dense<Zp>; b 1 Sparse<Zp>; c 2 Tens<ZpN<3>, 2>; d 3 Tens<f64, 3>; e 4 Wrapped<f32, 2>; f 5 Wrapped<Zp, 3>; g 6 Tens<ZpN<2>, 3>; h 7 Sparse<f64>; i 8 Tens<ZpN<2>, 2>; j 9 Tens<ZpN<5>, 1>; k 10 Tens<f32, 3>; l 11 Tens<Zp, 6> }
    };
}
macro_rules! decl {
    ($($n:ident $i:literal $t:ty);*) => {
        struct All { $($n: Option<Pool<$t>>),* }
        /// Only the pools that the plan touches exist, and each depends on the seed alone.
        fn make_all(seed: u64, size: usize, used: u32) -> All {
            All { $($n: if used >> $i & 1 == 1 { Some(make_pool::<$t>(&mut Rng::new(seed ^ $i), size)) } else { None }),* }
        }
        fn dispatch(o: &Op, all: &All) {
            match pool_of(o) {
                $($i => if let Some(p) = &all.$n { step::<$t>(o, p) },)*
                _ => {}
            }
        }
        fn recheck(all: &All) { $(if let Some(p) = &all.$n { unchanged::<$t>(p) })* }
    };
}
pools!(decl);

fn pool_of(o: &Op) -> i64 {
    (o.arg(5) >> 4).rem_euclid(NK as i64)
}

fn unchanged<K: Kind>(p: &Pool<K>) {
    for (v, m) in p.v.iter().zip(&p.m) {
        match observe::<K>(v, p.cap) {
            Ok(x) if diff(&x, m).is_none() => {}
            _ => violation("interfere", "a vector that all threads only read has changed"),
        }
    }
}

static ACTIVE: AtomicU32 = AtomicU32::new(0);

pub fn exec(p: &Plan) {
    // set up by the first simulated caller alone, then shared
    let q = p.clone();
    let slot: Arc<std::sync::Mutex<Option<Arc<All>>>> = Arc::new(std::sync::Mutex::new(None));
    let s2 = slot.clone();
    let mut c = crate::cfg(p);
    c.explicit = Some(vec![]);
    sched::run_threads(
        c,
        vec![Box::new(move || {
            let used = q.threads.iter().flatten().fold(0u32, |u, o| u | 1 << pool_of(o));
            *s2.lock().unwrap() = Some(Arc::new(make_all(q.p(0) as u64, q.p(1) as usize, used)));
        })],
    );
    let all = slot.lock().unwrap().take().unwrap();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..p.threads.len() {
        let (q, all) = (p.clone(), all.clone());
        bodies.push(Box::new(move || {
            for (i, o) in q.threads[t].iter().enumerate() {
                sched::set_cur_op(i as i32);
                if ACTIVE.fetch_add(1, SeqCst) > 0 {
                    probe(pr::SHARED_OVERLAP);
                }
                dispatch(o, &all);
                ACTIVE.fetch_sub(1, SeqCst);
                simrt::sh().ops_done += 1;
            }
        }));
    }
    sched::run_threads_more(crate::cfg(p), bodies);
    recheck(&all);
}

fn bad(o: &Op, what: &str) {
    violation("interfere", &format!("{}: {}", name(o.k), what));
}

/// Every operation stands alone: what it writes to is made for it.
fn step<K: SK>(o: &Op, p: &Pool<K>) {
    let (d, xi, yi) = (o.idx(0, NREG), o.idx(1, NREG), o.idx(2, NREG));
    let cap = p.cap;
    let (x, y) = (&p.v[xi], &p.v[yi]);
    let what = name(o.k);
    simrt::log(o.k as u64);
    match o.k {
        MUL..=IDIVR => {
            if !K::has_alg() {
                return;
            }
            let xi = match o.k {
                EXP => 2,
                LOG => 1,
                _ => xi,
            };
            let x = &p.v[xi];
            let to = (o.arg(4) % 5) as u32;
            let to = to.min(K::degree_model(cap));
            let want = match K::alg_model(o.k, &p.m[xi], &p.m[yi], &p.m[d], to, o.arg(3), cap) {
                Some(w) => w,
                None => return,
            };
            let mut dst = make::<K>(&p.m[d], p.lim[d]);
            let r = match call_op(what, o, || K::alg(o.k, x, y, &mut dst, to, o.arg(3))) {
                Call::Cut => {
                    probe(pr::RETRIED);
                    dst = make::<K>(&p.m[d], p.lim[d]);
                    call(what, || K::alg(o.k, x, y, &mut dst, to, o.arg(3)))
                }
                Call::Done(v) => Some(v),
                Call::Bad => None,
            };
            if let Some(Some(v)) = r {
                settle::<K>(o, cap, v.unwrap_or(dst), &want);
            }
        }
        RENDER => {
            let want: String =
                p.stored[xi].iter().map(|(i, c)| format!("{}{}", c.text(), K::key_name(*i))).collect();
            let mut w = String::new();
            if let Some(true) = call(what, || K::render(x, &mut w)) {
                simrt::log(w.len() as u64);
                if w != want {
                    bad(o, &format!("gives {:?} instead of {:?}", clip(&w), clip(&want)));
                }
            }
        }
        KEYS => {
            let n = (o.arg(4) as usize % cap) + 1;
            if let Some(k) = call(what, || K::keys(n)) {
                if k.iter().enumerate().any(|(i, x)| i != *x) || k.len() != n {
                    bad(o, &format!("the first {} keys have indices {:?}", n, &k[..k.len().min(40)]));
                }
            }
        }
        EQ => {
            if let Some((a, b)) = call(what, || (x == y, x == x)) {
                let same = p.stored[xi] == p.stored[yi];
                let differ = diff(&p.m[xi], &p.m[yi]).is_some();
                probe(if a { pr::EQ_TRUE } else { pr::EQ_FALSE });
                if !b || (a && differ) || (!a && same && K::has_alg()) {
                    bad(o, &format!("answers {} / {} (itself)", a, b));
                }
            }
        }
        READ => {
            if let Some(v) = call(what, || by_key::<K>(x, cap)) {
                if let Some(i) = diff(&v, &p.m[xi]) {
                    bad(o, &format!("coefficient {} reads {} instead of {}", i, v[i].text(), p.m[xi][i].text()));
                }
            }
        }
        DEGREE => {
            if let Some(Some(g)) = call(what, || K::degree(x)) {
                if g != K::degree_model(p.stored[xi].len()) {
                    bad(o, &format!("answers {}", g));
                }
            }
        }
        WORDS => {
            let i = o.arg(4) as usize % cap;
            if let Some((j, s)) = call(what, || K::word(i)) {
                if j != i || s != K::key_name(i) {
                    bad(o, &format!("index {} gives {:?} and index {}", i, s, j));
                }
            }
        }
        vecw::GETMUT | vecw::SWAP => {}
        k => {
            let want = match vecw::expect::<K>(o, cap, &p.m[d], &p.m[xi], &p.m[yi]) {
                Some(w) => w,
                None => return,
            };
            let fresh = k < 10 || k >= 40;
            let go = |dst: &mut K::V| {
                if fresh {
                    *dst = vecw::fresh::<K>(o, cap, &p.v, None)();
                } else {
                    vecw::inplace::<K>(o, cap, dst, Src::Ref(x));
                }
            };
            let mut dst = make::<K>(&p.m[d], p.lim[d]);
            let r = match call_op(what, o, || go(&mut dst)) {
                Call::Done(v) => Some(v),
                Call::Cut => {
                    probe(pr::RETRIED);
                    dst = make::<K>(&p.m[d], p.lim[d]);
                    call(what, || go(&mut dst))
                }
                Call::Bad => None,
            };
            if r.is_some() {
                settle::<K>(o, cap, dst, &want);
            }
        }
    }
}

fn settle<K: SK>(o: &Op, cap: usize, v: K::V, want: &[K::F]) {
    match observe::<K>(&v, cap) {
        Ok(v) => {
            log_vals(&v);
            if let Some(i) = diff(&v, want) {
                bad(o, &format!("coefficient {} is {} instead of {}", i, v[i].text(), want[i].text()));
            }
        }
        Err(e) => bad(o, &e),
    }
}

fn clip(s: &str) -> String {
    s.chars().take(160).collect()
}
