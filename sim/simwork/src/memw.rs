//! Safe but inconsistent callers: bases, keys, vectors, borrows and streams that
//! answer differently from call to call, and vectors of any length. Nothing is
//! expected of the results; no access may leave live memory.
use crate::bases::words_upto;
use crate::common::*;
use crate::scalar::*;
use crate::tensorw::Tn;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::{Basis, BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::coefficients::{CoefficientBase, CoefficientField, Commutative, FromDegreeType};
use rustyalgebra::free_tensor::{FreeTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::implementation::SimpleSparseVector;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, SimpleDenseVector, Vector, VectorKeyExt, VectorWithDegree};
use simrt::sched::{fault_point, host, lib_op, Outcome};
use simrt::{fault_fired, fk, pr, probe, Op, Plan, Rng};
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};

type S = Sc<Zp>;

static mut LIES: Option<Rng> = None;
static mut RATE: u64 = 0;

/// Is this answer a lie, and which one?
#[allow(static_mut_refs)]
fn lie(kind: usize) -> Option<u64> {
    unsafe {
        let r = LIES.as_mut()?;
        if RATE == 0 || std::thread::panicking() || !r.chance(1, RATE) {
            return None;
        }
        fault_fired(kind);
        Some(r.next() >> 8)
    }
}
fn raw(n: u64) -> u64 {
    #[allow(static_mut_refs)]
    unsafe {
        LIES.as_mut().map(|r| r.below(n)).unwrap_or(0)
    }
}

// ------------------------------------------------------------ basis and keys

#[derive(Clone)]
pub struct LKey(u16);
impl PartialEq for LKey {
    fn eq(&self, o: &Self) -> bool {
        host(|| match lie(fk::BASIS_LIE) {
            Some(x) => x & 1 == 1,
            None => self.0 == o.0,
        })
    }
}
impl Eq for LKey {}
impl Hash for LKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let v = host(|| match lie(fk::BASIS_LIE) {
            Some(x) => x,
            None => self.0 as u64,
        });
        v.hash(h)
    }
}
impl fmt::Display for LKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

#[derive(Debug)]
pub struct LBasis;
pub struct LIter(u32);
impl Iterator for LIter {
    type Item = LKey;
    fn next(&mut self) -> Option<LKey> {
        if host(|| lie(fk::BASIS_LIE)).map(|x| x % 3 == 0).unwrap_or(false) {
            return None;
        }
        self.0 += 1;
        Some(LKey(self.0 as u16))
    }
}
impl Basis for LBasis {
    type KeyType = LKey;
}
fn index_answer(x: usize) -> usize {
    host(|| {
        fault_point(fk::BASIS);
        match lie(fk::BASIS_LIE) {
            Some(l) => match l % 7 {
                0 => usize::MAX,
                1 => 1 << 40,
                2 => x + 1 + (l / 7 % 20) as usize,
                3 => x.saturating_sub(1),
                4 => 0,
                5 => (l / 7 % 5000) as usize,
                _ => x * 2,
            },
            None => x,
        }
    })
}
fn dim_answer(x: usize) -> usize {
    host(|| {
        fault_point(fk::BASIS);
        match lie(fk::BASIS_LIE) {
            Some(l) => match l % 5 {
                0 => 0,
                1 => x.saturating_sub(1 + (l / 5 % 9) as usize),
                2 => x + (l / 5 % 30) as usize,
                3 => (l / 5 % 3000) as usize,
                _ => 1,
            },
            None => x,
        }
    })
}
impl OrderedBasis for LBasis {
    type KeyIterator = LIter;
    fn compare(a: &LKey, b: &LKey) -> Ordering {
        match host(|| lie(fk::BASIS_LIE)) {
            Some(x) => [Ordering::Less, Ordering::Equal, Ordering::Greater][x as usize % 3],
            None => a.0.cmp(&b.0),
        }
    }
    fn iter_keys() -> LIter {
        LIter(0)
    }
    fn key_to_index(k: &LKey) -> usize {
        index_answer(k.0 as usize)
    }
    fn index_to_key(i: usize) -> LKey {
        LKey(index_answer(i) as u16)
    }
    fn vector_dimension_for_key(k: &LKey) -> usize {
        dim_answer(k.0 as usize / 8 * 8 + 8)
    }
    fn vector_dimension_for_index(i: impl Into<usize>) -> usize {
        // an honest dimension for a dishonest index would exhaust memory
        let i: usize = i.into();
        dim_answer(i.min(60_000) / 8 * 8 + 8)
    }
}
impl BasisWithDegree for LBasis {
    fn degree(k: &LKey) -> u32 {
        dim_answer(k.0 as usize / 8) as u32
    }
}
impl OrderedBasisWithDegree for LBasis {
    fn index_to_degree(i: usize) -> u32 {
        dim_answer(i.min(60_000) / 8) as u32
    }
    fn start_of_degree(d: u32) -> usize {
        dim_answer((d as usize).min(1000) * 8)
    }
}

// ------------------------------------------------------------ coefficients

/// A coefficient type these histories can be run over.
pub trait Co: CoefficientField + 'static {
    fn mk(x: i64) -> Self;
    fn rt(x: i64) -> Self::RationalType;
    fn look(&self) -> i64;
}
impl Co for S {
    fn mk(x: i64) -> Self {
        Sc::new(Zp::of(x))
    }
    fn rt(x: i64) -> Rat<Zp> {
        Rat(Zp::divisor(x))
    }
    fn look(&self) -> i64 {
        self.val();
        0
    }
}

/// Untracked coefficients of unusual size and alignment. Their own code is
/// instrumented, so an access outside live memory is seen here as well.
macro_rules! plain {
    ($t:ident, $attr:meta, $raw:ty, $of:expr, $to:expr, $zero:expr, $one:expr, $mone:expr) => {
        #[derive(Debug)]
        #[$attr]
        pub struct $t($raw);
        impl $t {
            fn at(x: i64) -> Self {
                host(|| fault_point(fk::SCALAR));
                $t(($of)(x))
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                host(|| fault_point(fk::CLONE));
                $t(($of)(($to)(&self.0)))
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                host(|| fault_point(fk::EQ));
                ($to)(&self.0) == ($to)(&o.0)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", ($to)(&self.0))
            }
        }
        impl From<i8> for $t {
            fn from(x: i8) -> Self {
                Self::at(x as i64)
            }
        }
        impl From<i16> for $t {
            fn from(x: i16) -> Self {
                Self::at(x as i64)
            }
        }
        impl FromDegreeType for $t {
            fn from_degree(d: &u32) -> Self {
                Self::at(*d as i64)
            }
        }
        impl CoefficientBase for $t {}
        impl Commutative for $t {}
        impl CoefficientField for $t {
            type RationalType = $t;
            const ZERO: Self = $t($zero);
            const ONE: Self = $t($one);
            const MONE: Self = $t($mone);
            fn uminus(&self) -> Self {
                Self::at(($to)(&self.0).wrapping_neg())
            }
            fn inv(a: impl Borrow<$t>) -> Self {
                Self::at(($to)(&a.borrow().0))
            }
            fn add(&self, o: &Self) -> Self {
                Self::at(($to)(&self.0).wrapping_add(($to)(&o.0)))
            }
            fn sub(&self, o: &Self) -> Self {
                Self::at(($to)(&self.0).wrapping_sub(($to)(&o.0)))
            }
            fn mul(&self, o: &Self) -> Self {
                Self::at(($to)(&self.0).wrapping_mul(($to)(&o.0)))
            }
            fn div(&self, o: &Self) -> Self {
                Self::at(($to)(&self.0).wrapping_add(($to)(&o.0)))
            }
            fn add_inplace(&mut self, o: &Self) -> &mut Self {
                *self = CoefficientField::add(&*self, o);
                self
            }
            fn sub_inplace(&mut self, o: &Self) -> &mut Self {
                *self = CoefficientField::sub(&*self, o);
                self
            }
            fn mul_inplace(&mut self, o: &Self) -> &mut Self {
                *self = CoefficientField::mul(&*self, o);
                self
            }
            fn div_inplace(&mut self, o: &Self) -> &mut Self {
                *self = CoefficientField::div(&*self, o);
                self
            }
        }
        impl Co for $t {
            fn mk(x: i64) -> Self {
                $t(($of)(x))
            }
            fn rt(x: i64) -> Self {
                $t(($of)(x))
            }
            fn look(&self) -> i64 {
                ($to)(&self.0)
            }
        }
        impl<const N: u32> FreeTensor<'static, $t, N> for SimpleDenseVector<'static, TensorBasis<N>, $t> {
            const MAX_DEGREE: u32 = 3;
        }
    };
}
// nothing to store
plain!(Nil, repr(C), (), |_: i64| (), |_: &()| 0i64, (), (), ());
plain!(Byte, repr(C), u8, |x: i64| x as u8, |x: &u8| *x as i64, 0, 1, 255);
// several cache lines, aligned to more than the allocator's usual grain
plain!(Wide, repr(align(128)), [i64; 24], |x: i64| [x; 24], |x: &[i64; 24]| x[0] ^ x[11] ^ x[23], [0; 24], [1; 24], [-1; 24]);

// ------------------------------------------------------------ borrows

/// Hands out one vector or the other.
struct Two<V>(V, V);
impl<V> Borrow<V> for Two<V> {
    fn borrow(&self) -> &V {
        if host(|| lie(fk::VEC_LIE)).is_some() { &self.1 } else { &self.0 }
    }
}
impl<V> BorrowMut<V> for Two<V> {
    fn borrow_mut(&mut self) -> &mut V {
        if host(|| lie(fk::VEC_LIE)).is_some() { &mut self.1 } else { &mut self.0 }
    }
}

// ------------------------------------------------------------ vectors

/// A wrapper around two vectors that forgets which one it wraps.
struct Flip<V>(V, V);
impl<V> Deref for Flip<V> {
    type Target = V;
    fn deref(&self) -> &V {
        if host(|| lie(fk::VEC_LIE)).is_some() { &self.1 } else { &self.0 }
    }
}
impl<V> DerefMut for Flip<V> {
    fn deref_mut(&mut self) -> &mut V {
        if host(|| lie(fk::VEC_LIE)).is_some() { &mut self.1 } else { &mut self.0 }
    }
}
impl<V: Vector<'static>> From<V> for Flip<V> {
    fn from(v: V) -> Self {
        Flip(v, V::new())
    }
}
impl<V: PartialEq> PartialEq for Flip<V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

/// A dense tensor whose length, degree and slices change from call to call.
struct ByzT<const N: u32> {
    d: Vec<S>,
}
impl<const N: u32> PartialEq for ByzT<N> {
    fn eq(&self, o: &Self) -> bool {
        self.d == o.d
    }
}
impl<const N: u32> ByzT<N> {
    fn cut(&self) -> (usize, usize) {
        host(|| match lie(fk::VEC_LIE) {
            Some(_) => {
                let n = self.d.len() as u64 + 1;
                let a = raw(n) as usize;
                let b = raw(n) as usize;
                (a.min(b), a.max(b))
            }
            None => (0, self.d.len()),
        })
    }
}
impl<const N: u32> Vector<'static> for ByzT<N> {
    type BasisType = TensorBasis<N>;
    type KeyType = TensorKey<N>;
    type ScalarType = S;
    type RationalType = Rat<Zp>;
    fn new() -> Self {
        ByzT { d: vec![] }
    }
    fn from_key(key: impl Into<TensorKey<N>>) -> Self {
        Self::from_key_scalar(key, S::ONE)
    }
    fn from_key_scalar(key: impl Into<TensorKey<N>>, s: impl Into<S>) -> Self {
        let i = TensorBasis::<N>::key_to_index(&key.into());
        let mut d: Vec<S> = (0..=i.min(2000)).map(|_| S::ZERO).collect();
        *d.last_mut().unwrap() = s.into();
        ByzT { d }
    }
    fn from_iterator(it: impl IntoIterator<Item = (TensorKey<N>, S)>) -> Self {
        ByzT { d: it.into_iter().map(|x| x.1).collect() }
    }
    fn swap(&mut self, mut o: impl BorrowMut<Self>) {
        std::mem::swap(&mut self.d, &mut o.borrow_mut().d)
    }
    fn to_owned(&self) -> Self {
        ByzT { d: self.d.clone() }
    }
    fn clear(&mut self) {
        self.d.clear()
    }
    fn get(&self, k: impl Borrow<TensorKey<N>>) -> Option<&S> {
        self.d.get(TensorBasis::<N>::key_to_index(k.borrow()))
    }
    fn get_mut(&mut self, k: impl Borrow<TensorKey<N>>) -> Option<&mut S> {
        self.d.get_mut(TensorBasis::<N>::key_to_index(k.borrow()))
    }
    fn insert_single(&mut self, _: &TensorKey<N>, v: impl Into<S>) {
        self.d.push(v.into())
    }
    fn insert(&mut self, it: impl IntoIterator<Item = (TensorKey<N>, S)>) {
        self.d.extend(it.into_iter().map(|x| x.1))
    }
    fn erase(&mut self, _: impl Borrow<TensorKey<N>>) {
        self.d.pop();
    }
    fn uminus_inplace(&mut self) -> &mut Self {
        self
    }
    fn add_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self {
        for (a, b) in self.d.iter_mut().zip(&o.borrow().d) {
            a.add_inplace(b);
        }
        self
    }
    fn sub_inplace(&mut self, _: impl Borrow<Self>) -> &mut Self {
        self
    }
    fn scalar_lmultiply_inplace(&mut self, _: impl Into<S>) -> &mut Self {
        self
    }
    fn scalar_rdivide_inplace(&mut self, _: impl Into<Rat<Zp>>) -> &mut Self {
        self
    }
}
impl<const N: u32> DenseVector<'static> for ByzT<N> {
    fn as_slice(&self) -> &[S] {
        let (a, b) = self.cut();
        &self.d[a..b]
    }
    fn as_mut_slice(&mut self) -> &mut [S] {
        let (a, b) = self.cut();
        &mut self.d[a..b]
    }
}
impl<const N: u32> ResizeableDenseVector<'static> for ByzT<N> {
    fn resize(&mut self, n: usize) {
        let n = host(|| match lie(fk::VEC_LIE) {
            Some(x) => match x % 4 {
                0 => self.d.len(),
                1 => n.saturating_sub(1),
                2 => 0,
                _ => (x / 4 % 2000) as usize,
            },
            None => n,
        });
        self.d.resize(n.min(200_000), S::ZERO);
    }
}
impl<const N: u32> VectorWithDegree<'static> for ByzT<N> {
    fn degree(&self) -> u32 {
        host(|| match lie(fk::VEC_LIE) {
            Some(x) => [0, 1, 2, 3, 4, 5, 6][x as usize % 7],
            None => {
                let mut d = 0;
                while words_upto(N as usize, d) < self.d.len() {
                    d += 1;
                }
                d
            }
        })
    }
}
impl<const N: u32> FreeTensor<'static, S, N> for ByzT<N> {
    const MAX_DEGREE: u32 = 3;
}

// ------------------------------------------------------------ plan

const NREG: usize = 3;

// params: target, lie rate, lie seed
pub fn gen(seed: u64, _focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("mem", seed);
    p.params = vec![if r.chance(2, 3) { r.below(9) } else { r.range(9, 17) as u64 } as i64, r.pick(&[1, 2, 4, 10, 30]), (r.next() >> 2) as i64];
    p.hash_seed = r.next() >> 1;
    let n = r.range(3, if deep { 30 } else { 16 });
    let mut ops = vec![];
    for i in 0..n {
        let k = if i < NREG as i64 { r.below(4) } else { r.below(40) } as u16;
        let mut a = vec![
            r.below(NREG as u64) as i64,
            r.below(NREG as u64) as i64,
            r.below(NREG as u64) as i64,
            pick_val(&mut r),
            r.below(60) as i64,
            r.below(64) as i64,
        ];
        if i < NREG as i64 {
            a[0] = i;
        }
        if k < 4 {
            for _ in 0..r.below(45) {
                a.push(r.below(60) as i64);
                a.push(pick_val(&mut r));
            }
        }
        let mut o = Op { k, a, fault: None };
        if r.chance(1, 4) {
            let kinds = [fk::SCALAR, fk::CLONE, fk::EQ, fk::ALLOC, fk::BASIS, fk::ITER, fk::FUNC, fk::EQ_LIE, fk::EQ_LIE];
            o.fault = Some(pick_fault(&mut r, &kinds, 40));
        }
        ops.push(o);
    }
    p.threads = vec![ops];
    p
}

pub fn exec(p: &Plan) {
    unsafe {
        LIES = Some(Rng::new(p.p(2) as u64));
        RATE = p.p(1).max(0) as u64;
    }
    set_eq_lie(true);
    simrt::sched::tolerate_oom();
    match p.p(0) {
        0 => run::<SimpleDenseVector<'static, LBasis, S>, S>(p),
        1 => run::<SimpleSparseVector<'static, LBasis, S, LKey>, S>(p),
        2 => run::<Flip<SimpleDenseVector<'static, LBasis, S>>, S>(p),
        3 => run::<Flip<SimpleSparseVector<'static, LBasis, S, LKey>>, S>(p),
        4 => tensors::<Tn<Zp, 2>, S>(p),
        5 => tensors::<Tn<Zp, 3>, S>(p),
        6 => tensors::<ByzT<2>, S>(p),
        7 => tensors::<ByzT<3>, S>(p),
        8 => tensors::<Tn<Zp, 1>, S>(p),
        9 => run::<SimpleDenseVector<'static, LBasis, Nil>, Nil>(p),
        10 => run::<SimpleDenseVector<'static, LBasis, Byte>, Byte>(p),
        11 => run::<SimpleDenseVector<'static, LBasis, Wide>, Wide>(p),
        12 => run::<SimpleSparseVector<'static, LBasis, Nil, LKey>, Nil>(p),
        13 => run::<SimpleSparseVector<'static, LBasis, Wide, LKey>, Wide>(p),
        14 => tensors::<SimpleDenseVector<'static, TensorBasis<2>, Nil>, Nil>(p),
        15 => tensors::<SimpleDenseVector<'static, TensorBasis<3>, Wide>, Wide>(p),
        16 => tensors::<SimpleDenseVector<'static, TensorBasis<1>, Byte>, Byte>(p),
        _ => tensors::<SimpleDenseVector<'static, TensorBasis<2>, Byte>, Byte>(p),
    }
    set_eq_lie(false);
}

/// Any panic is acceptable here.
fn attempt<R>(o: &Op, f: impl FnOnce() -> R) -> Option<R> {
    let (r, _) = lib_op(o.fault.as_ref().map(|f| (f.kind as usize, f.n)), f);
    match r {
        Outcome::Ok(v) => {
            probe(pr::OP_OK);
            simrt::log(1);
            Some(v)
        }
        Outcome::Injected => {
            probe(pr::OP_INTERRUPTED);
            simrt::log(2);
            None
        }
        Outcome::Panic(_) => {
            probe(pr::PANIC_SEEN);
            simrt::log(3);
            None
        }
    }
}

struct Stream<K, C> {
    items: Vec<(K, C)>,
    hint: usize,
}
impl<K, C> Iterator for Stream<K, C> {
    type Item = (K, C);
    fn next(&mut self) -> Option<(K, C)> {
        host(|| {
            fault_point(fk::ITER);
            if lie(fk::ITER_END).map(|x| x % 4 == 0).unwrap_or(false) {
                return None;
            }
            self.items.pop()
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match host(|| lie(fk::ITER_HINT)) {
            Some(x) => ((x % 1000) as usize, if x & 1024 == 0 { Some((x >> 11) as usize % 10) } else { None }),
            None => (self.hint.min(self.items.len()), Some(self.items.len())),
        }
    }
}

trait FromIdx: Sized {
    fn from_idx(i: i64) -> Self;
}
impl FromIdx for LKey {
    fn from_idx(i: i64) -> Self {
        LKey(i as u16)
    }
}
impl<const N: u32> FromIdx for TensorKey<N> {
    fn from_idx(i: i64) -> Self {
        TensorBasis::<N>::index_to_key(i as usize)
    }
}

fn stream<K: FromIdx, C: Co>(o: &Op) -> Stream<K, C> {
    Stream {
        items: o.rest(6).chunks_exact(2).map(|c| (K::from_idx(c[0]), C::mk(c[1]))).collect(),
        hint: o.arg(5) as usize,
    }
}

fn run<V, C: Co>(p: &Plan)
where
    V: Extra + Vector<'static, ScalarType = C, RationalType = C::RationalType>,
    V::KeyType: FromIdx,
{
    let mut regs: Vec<V> = (0..NREG).map(|_| V::new()).collect();
    for (i, o) in p.threads[0].iter().enumerate() {
        simrt::sched::set_cur_op(i as i32);
        simrt::log(o.k as u64);
        if !common(o, &mut regs) {
            let (d, x) = (o.idx(0, NREG), o.idx(1, NREG));
            let mut dst = std::mem::replace(&mut regs[d], V::new());
            let new = attempt(o, || dst.extra(o));
            regs[d] = dst;
            if let Some(Some(v)) = new {
                regs[x] = v;
            }
        }
        simrt::sh().ops_done += 1;
    }
    let last = Op { k: 0, a: vec![], fault: None };
    attempt(&last, move || drop(regs));
}

/// What a vector can do beyond the common operations.
trait Extra: Sized {
    fn extra(&mut self, o: &Op) -> Option<Self>;
}
impl<B, C> Extra for SimpleDenseVector<'static, B, C>
where
    B: OrderedBasisWithDegree + 'static,
    B::KeyType: fmt::Display,
    C: Co + fmt::Display,
{
    fn extra(&mut self, o: &Op) -> Option<Self> {
        dense_extra(self, o)
    }
}
fn dense_extra<B, C>(v: &mut SimpleDenseVector<'static, B, C>, o: &Op) -> Option<SimpleDenseVector<'static, B, C>>
where
    B: OrderedBasisWithDegree + 'static,
    B::KeyType: fmt::Display,
    C: Co + fmt::Display,
{
    let (a, b) = (o.arg(4) as usize, o.arg(5) as usize);
    match o.k {
        26 => {
            let mut w = String::new();
            let _ = write!(w, "{}", v);
        }
        27 => {
            ResizeableDenseVector::resize(v, a);
        }
        28 => {
            v.degree();
        }
        29 => return Some(SimpleDenseVector::from_dimension(a)),
        30 => return Some(v.clone()),
        // any range, also one that is empty, reversed or outside
        31 => return v.get_slice(a..b).map(|s| SimpleDenseVector::from(s.to_vec())),
        32 => return v.get_slice(a..=b).map(|s| SimpleDenseVector::from(s.to_vec())),
        33 => {
            v.get_slice(b).map(|c| c.look());
            v.get_slice(usize::MAX - b).map(|c| c.look());
        }
        34 => {
            if let Some(s) = v.get_mut_slice(a..) {
                for c in s {
                    *c = C::mk(o.arg(3));
                }
            }
        }
        35 => {
            if let Some(s) = v.get_mut_slice(..b) {
                for c in s {
                    *c = C::mk(o.arg(3));
                }
            }
        }
        36 => {
            if let Some(c) = v.get_mut_slice(a) {
                *c = C::mk(o.arg(3));
            }
        }
        37 => {
            let s = v.as_mut_slice();
            s.reverse();
        }
        38 => {
            v.as_slice().iter().for_each(|c| {
                c.look();
            });
        }
        _ => {}
    }
    None
}
impl<B, K, C> Extra for SimpleSparseVector<'static, B, C, K>
where
    B: Basis<KeyType = K> + 'static,
    K: Hash + Eq + Clone + 'static,
    C: Co,
{
    fn extra(&mut self, o: &Op) -> Option<Self> {
        let mut n = 0;
        for (_, c) in &*self {
            n += 1;
            c.look();
            if n > o.arg(5) {
                break;
            }
        }
        None
    }
}
impl<V: Extra + Vector<'static>> Extra for Flip<V> {
    fn extra(&mut self, o: &Op) -> Option<Self> {
        self.deref_mut().extra(o).map(|v| v.into())
    }
}

fn common<V, C: Co>(o: &Op, regs: &mut Vec<V>) -> bool
where
    V: Vector<'static, ScalarType = C, RationalType = C::RationalType>,
    V::KeyType: FromIdx,
{
    let (d, x, y) = (o.idx(0, NREG), o.idx(1, NREG), o.idx(2, NREG));
    let key = || V::KeyType::from_idx(o.arg(4));
    let sc = || C::mk(o.arg(3));
    let rt = || C::rt(o.arg(3));
    let two = |regs: &mut Vec<V>| {
        let a = std::mem::replace(&mut regs[x], V::new());
        let b = if x == y { V::new() } else { std::mem::replace(&mut regs[y], V::new()) };
        Two(a, b)
    };
    let new = match o.k {
        0 | 1 | 2 => {
            let s = stream::<V::KeyType, C>(o);
            attempt(o, || V::from_iterator(s))
        }
        3 => {
            let s = stream::<V::KeyType, C>(o);
            let dst = &mut regs[d];
            attempt(o, || dst.insert(s));
            None
        }
        4 => attempt(o, || V::from_key(host(key))),
        5 => attempt(o, || V::from_key_scalar(host(key), host(sc))),
        6 => {
            let dst = &mut regs[d];
            attempt(o, || dst.insert_single(&host(key), host(sc)));
            None
        }
        7 => {
            let dst = &mut regs[d];
            attempt(o, || {
                if let Some(c) = dst.get_mut(host(key)) {
                    *c = host(sc);
                }
            });
            None
        }
        8 => {
            let dst = &regs[d];
            attempt(o, || dst.get(host(key)).map(|c| c.look()));
            None
        }
        9 => {
            let dst = &mut regs[d];
            attempt(o, || dst.erase(host(key)));
            None
        }
        10..=17 => {
            let mut dst = std::mem::replace(&mut regs[d], V::new());
            let r = two(regs);
            attempt(o, || match o.k {
                10 => {
                    dst.add_inplace(r);
                }
                11 => {
                    dst.sub_inplace(r);
                }
                12 if o.arg(5) & 1 == 0 => {
                    dst.add_scalar_rmultiply(r, host(sc));
                }
                12 => {
                    dst.add_scalar_lmultiply(r, host(sc));
                }
                13 if o.arg(5) & 1 == 0 => {
                    dst.sub_scalar_lmultiply(r, host(sc));
                }
                13 => {
                    dst.sub_scalar_rmultiply(r, host(sc));
                }
                14 => match o.arg(5) & 3 {
                    0 => {
                        dst.add_scalar_rdivide(r, host(rt));
                    }
                    1 => {
                        dst.add_scalar_ldivide(r, host(rt));
                    }
                    2 => {
                        dst.sub_scalar_rdivide(r, host(rt));
                    }
                    _ => {
                        dst.sub_scalar_ldivide(r, host(rt));
                    }
                },
                15 => {
                    dst.swap(r);
                }
                16 => {
                    let v = dst.add(r);
                    dst = v;
                }
                _ => {
                    let v = dst.sub(r);
                    dst = v;
                }
            });
            regs[d] = dst;
            None
        }
        18 => {
            let (a, b) = (&regs[x], &regs[y]);
            attempt(o, || a == b);
            None
        }
        19 => {
            let dst = &mut regs[d];
            attempt(o, || {
                dst.uminus_inplace();
            });
            None
        }
        20 => {
            let dst = &mut regs[d];
            attempt(o, || {
                dst.scalar_lmultiply_inplace(host(sc));
            });
            None
        }
        21 => {
            let dst = &mut regs[d];
            attempt(o, || {
                dst.scalar_rdivide_inplace(host(rt));
            });
            None
        }
        22 => {
            let a = &regs[x];
            attempt(o, || Vector::to_owned(a))
        }
        23 => {
            let dst = &mut regs[d];
            attempt(o, || dst.clear());
            None
        }
        24 => {
            let dst = &mut regs[d];
            attempt(o, || {
                dst.add_scalar_multiply(host(key), host(sc));
            });
            None
        }
        25 => {
            let dst = &mut regs[d];
            attempt(o, || match o.arg(5) & 3 {
                0 => {
                    dst.sub_scalar_divide(host(key), host(rt));
                }
                1 => {
                    dst.add_scalar_divide(host(key), host(rt));
                }
                _ => {
                    dst.sub_scalar_multiply(host(key), host(sc));
                }
            });
            None
        }
        _ => return false,
    };
    if let Some(v) = new {
        regs[d] = v;
    }
    true
}

trait Tensorish<C>: Sized {
    fn len(&self) -> usize;
    fn exactly(v: Vec<C>) -> Self;
    fn more(k: u16, o: &Op, dst: &mut Self, x: &Self, y: &Self) -> Option<Self>;
}

fn algebra<V, C: Co, const N: u32>(k: u16, o: &Op, dst: &mut V, x: &V, y: &V) -> Option<V>
where
    V: Algebra<'static, ScalarType = C, RationalType = C::RationalType> + FreeTensor<'static, C, N>,
{
    let to = match o.arg(5) {
        0 => None,
        1..=3 => Some(1000),
        4 => Some(u32::MAX),
        v => Some((v % 6) as u32),
    };
    let f = |v: &C| {
        simrt::sched::fault_point(fk::FUNC);
        v.clone()
    };
    match k % 10 {
        0 => Some(x.multiply(y, to)),
        1 => Some(x.commutator(y, to)),
        2 => {
            dst.add_mul(x, y, to);
            None
        }
        3 => {
            dst.sub_mul(x, y, to);
            None
        }
        4 if o.arg(3) % 2 == 0 => {
            dst.multiply_inplace(x, to);
            None
        }
        4 => {
            match o.arg(4) % 4 {
                0 => dst.mul_scal_lprod(x, C::mk(o.arg(3)), to),
                1 => dst.mul_scal_rprod(x, C::mk(o.arg(3)), to),
                2 => dst.mul_rat_ldiv(x, C::rt(o.arg(3)), to),
                _ => dst.mul_rat_rdiv(x, C::rt(o.arg(3)), to),
            };
            None
        }
        5 => {
            dst.multiply_into_impl(x, f, to);
            None
        }
        6 => {
            dst.multiply_and_add_into_impl(x, y, f, to);
            None
        }
        7 => Some(x.exp()),
        8 => Some(x.log()),
        _ => {
            dst.fmexp(x);
            None
        }
    }
}

impl<C: Co + fmt::Display, const N: u32> Tensorish<C> for SimpleDenseVector<'static, TensorBasis<N>, C>
where
    Self: FreeTensor<'static, C, N>,
{
    fn len(&self) -> usize {
        self.as_slice().len()
    }
    fn exactly(v: Vec<C>) -> Self {
        SimpleDenseVector::from(v)
    }
    fn more(k: u16, o: &Op, dst: &mut Self, x: &Self, y: &Self) -> Option<Self> {
        if k == 26 {
            let mut w = String::new();
            let _ = write!(w, "{}", x);
            return None;
        }
        if k == 27 {
            // coordinates far outside
            let key = TensorBasis::<N>::index_to_key(o.arg(3).unsigned_abs() as usize * 37);
            let _ = x.get(&key);
            dst.erase(&key);
            return None;
        }
        if k == 28 {
            // one letter: as many degrees as there are coordinates
            let n = o.arg(4) as usize * if o.arg(5) == 63 { [1, 3001, 97, 50][N as usize & 3] } else { 1 };
            ResizeableDenseVector::resize(dst, n);
            let _ = dst.degree();
            if N == 1 && n > 400 {
                let _ = dst.multiply(x, Some(2));
                let _ = x.multiply(&*dst, Some(2));
            }
            return None;
        }
        if k > 28 && o.arg(3) % 3 == 0 {
            return dense_extra(dst, o);
        }
        algebra::<Self, C, N>(k, o, dst, x, y)
    }
}
impl<const N: u32> Tensorish<S> for ByzT<N> {
    fn len(&self) -> usize {
        self.d.len()
    }
    fn exactly(v: Vec<S>) -> Self {
        ByzT { d: v }
    }
    fn more(k: u16, o: &Op, dst: &mut Self, x: &Self, y: &Self) -> Option<Self> {
        algebra::<Self, S, N>(k, o, dst, x, y)
    }
}

fn tensors<V, C: Co>(p: &Plan)
where
    V: Tensorish<C> + Vector<'static, ScalarType = C, RationalType = C::RationalType>,
    V::KeyType: FromIdx,
{
    probe(pr::TENSOR);
    let mut regs: Vec<V> = (0..NREG).map(|_| V::new()).collect();
    for (i, o) in p.threads[0].iter().enumerate() {
        simrt::sched::set_cur_op(i as i32);
        simrt::log(o.k as u64);
        let (d, x, y) = (o.idx(0, NREG), o.idx(1, NREG), o.idx(2, NREG));
        if o.k < 3 {
            // exactly these coordinates: any length
            regs[d] = V::exactly(o.rest(6).iter().map(|v| C::mk(*v)).collect());
        } else if o.k < 26 && o.k % 2 == 0 {
            common(o, &mut regs);
        } else {
            // keep products small: over-long vectors start again
            for r in [d, x, y] {
                if regs[r].len() > 400 {
                    regs[r] = V::new();
                }
            }
            let mut dst = std::mem::replace(&mut regs[d], V::new());
            let (a, b) = (&regs[x], &regs[y]);
            let r = attempt(o, || V::more(o.k, o, &mut dst, a, b));
            regs[d] = dst;
            if let Some(Some(v)) = r {
                regs[d] = v;
            }
        }
        simrt::sh().ops_done += 1;
    }
    let last = Op { k: 0, a: vec![], fault: None };
    attempt(&last, move || drop(regs));
}
