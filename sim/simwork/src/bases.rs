//! Caller-supplied bases and keys.
use crate::scalar::*;
use rustyalgebra::basis::{Basis, OrderedBasis};
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::implementation::SimpleSparseVector;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, SimpleDenseVector, Vector, VectorIteratorItem};
use simrt::sched::{fault_point, host};
use simrt::{fk, pr};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

static mut COLLIDE: bool = false;
pub fn set_collide(on: bool) {
    unsafe { COLLIDE = on }
}

pub struct SimKey(pub u32);

impl Clone for SimKey {
    fn clone(&self) -> Self {
        host(|| fault_point(fk::KEY));
        SimKey(self.0)
    }
}
impl PartialEq for SimKey {
    fn eq(&self, o: &Self) -> bool {
        host(|| fault_point(fk::KEY));
        self.0 == o.0
    }
}
impl Eq for SimKey {}
impl Hash for SimKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        host(|| fault_point(fk::KEY));
        if unsafe { COLLIDE } {
            0u32.hash(h)
        } else {
            self.0.hash(h)
        }
    }
}
impl fmt::Display for SimKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

/// Ordered basis over integers, vectors come in blocks of eight.
#[derive(Debug)]
pub struct SimBasis;

pub struct KeyRange(u32);
impl Iterator for KeyRange {
    type Item = SimKey;
    fn next(&mut self) -> Option<SimKey> {
        if self.0 >= 1 << 20 {
            return None;
        }
        self.0 += 1;
        Some(SimKey(self.0 - 1))
    }
}

impl Basis for SimBasis {
    type KeyType = SimKey;
}
impl OrderedBasis for SimBasis {
    type KeyIterator = KeyRange;
    fn compare(a: &SimKey, b: &SimKey) -> Ordering {
        a.0.cmp(&b.0)
    }
    fn iter_keys() -> KeyRange {
        KeyRange(0)
    }
    fn key_to_index(k: &SimKey) -> usize {
        host(|| fault_point(fk::BASIS));
        k.0 as usize
    }
    fn index_to_key(i: usize) -> SimKey {
        SimKey(i as u32)
    }
    fn vector_dimension_for_key(k: &SimKey) -> usize {
        host(|| fault_point(fk::BASIS));
        (k.0 as usize / 8 + 1) * 8
    }
    fn vector_dimension_for_index(i: impl Into<usize>) -> usize {
        host(|| fault_point(fk::BASIS));
        (i.into() / 8 + 1) * 8
    }
}

/// The word with this index in an n-letter alphabet (letters 1..=n), shortlex order.
pub fn word(n: usize, mut i: usize) -> Vec<u32> {
    let mut w = vec![];
    while i > 0 {
        i -= 1;
        w.push((i % n) as u32 + 1);
        i /= n;
    }
    w.reverse();
    w
}
pub fn word_index(n: usize, w: &[u32]) -> usize {
    w.iter().fold(0, |a, &l| a * n + l as usize)
}
/// number of words of length at most d
pub fn words_upto(n: usize, d: u32) -> usize {
    (0..=d).map(|k| n.pow(k)).sum()
}
pub fn word_degree(n: usize, i: usize) -> u32 {
    let mut d = 0;
    while words_upto(n, d) <= i {
        d += 1;
    }
    d
}
/// text of a key: its letters, last letter first
pub fn key_text(w: &[u32]) -> String {
    let v: Vec<String> = w.iter().rev().map(|x| x.to_string()).collect();
    format!("({})", v.join(", "))
}

/// A kind of vector the workloads run on.
pub trait Kind: 'static {
    type F: Dom;
    type K: 'static;
    type V: Vector<'static, KeyType = Self::K, ScalarType = Sc<Self::F>, RationalType = Rat<Self::F>> + Send + Sync;
    const PROBE: usize;
    /// number of keys in use, for a requested size class
    fn domain(size: usize) -> usize;
    fn key(i: usize) -> Self::K;
    /// every stored coordinate, as (index, value)
    fn stored(v: &Self::V) -> Vec<(usize, Self::F)>;
    /// the type's own copy operation
    fn dup(v: &Self::V) -> Self::V;
    /// a vector with exactly these stored coordinates, where the kind allows it
    fn exact(_: Vec<Sc<Self::F>>) -> Option<Self::V> {
        None
    }
    /// a vector of this many zeros, where the kind allows it
    fn of_dim(_: usize) -> Option<Self::V> {
        None
    }
    /// change the number of stored coordinates, where the kind allows it
    fn resize(_: &mut Self::V, _: usize) -> bool {
        false
    }
    /// write through the slice view (whole or in part), where the kind has one
    fn write_slice(_: &mut Self::V, _at: usize, _part: bool, _x: Sc<Self::F>) -> bool {
        false
    }
    fn is_dense() -> bool {
        false
    }
}

pub fn dense_stored<F: Dom>(s: &[Sc<F>]) -> Vec<(usize, F)> {
    s.iter().enumerate().map(|(i, x)| (i, x.val())).collect()
}

fn set_slice<'v, V: DenseVector<'v>>(v: &mut V, at: usize, part: bool, x: V::ScalarType) -> bool {
    if part {
        // the tail from there on
        match v.get_mut_slice(at..) {
            Some([first, ..]) => {
                *first = x;
                true
            }
            _ => false,
        }
    } else {
        match v.as_mut_slice().get_mut(at) {
            Some(y) => {
                *y = x;
                true
            }
            None => false,
        }
    }
}

pub struct Dense<F>(std::marker::PhantomData<F>);
impl<F: Dom> Kind for Dense<F> {
    type F = F;
    type K = SimKey;
    type V = SimpleDenseVector<'static, SimBasis, Sc<F>>;
    const PROBE: usize = pr::DENSE;
    fn domain(size: usize) -> usize {
        [5, 12, 23, 40, 300, 3000, 20000, 70000][size % 8]
    }
    fn key(i: usize) -> SimKey {
        SimKey(i as u32)
    }
    fn stored(v: &Self::V) -> Vec<(usize, F)> {
        dense_stored(DenseVector::as_slice(v))
    }
    fn dup(v: &Self::V) -> Self::V {
        v.clone()
    }
    fn exact(c: Vec<Sc<F>>) -> Option<Self::V> {
        Some(SimpleDenseVector::from(c))
    }
    fn of_dim(n: usize) -> Option<Self::V> {
        Some((SimpleDenseVector::from_dimension(n)))
    }
    fn resize(v: &mut Self::V, n: usize) -> bool {
        ResizeableDenseVector::resize(v, n);
        true
    }
    fn write_slice(v: &mut Self::V, at: usize, part: bool, x: Sc<F>) -> bool {
        set_slice(v, at, part, x)
    }
    fn is_dense() -> bool {
        true
    }
}

pub struct Sparse<F>(std::marker::PhantomData<F>);
impl<F: Dom> Kind for Sparse<F> {
    type F = F;
    type K = SimKey;
    type V = SimpleSparseVector<'static, SimBasis, Sc<F>, SimKey>;
    const PROBE: usize = pr::SPARSE;
    fn domain(size: usize) -> usize {
        [4, 9, 17, 30, 300, 2000, 9000, 20000][size % 8]
    }
    fn key(i: usize) -> SimKey {
        SimKey(i as u32)
    }
    fn stored(v: &Self::V) -> Vec<(usize, F)> {
        v.into_iter().map(|it| (it.key().0 as usize, it.value().val())).collect()
    }
    fn dup(v: &Self::V) -> Self::V {
        Vector::to_owned(v)
    }
}

/// A caller's own type around a sparse vector.
#[derive(PartialEq)]
pub struct Around<F: Dom>(SimpleSparseVector<'static, SimBasis, Sc<F>, SimKey>);
impl<F: Dom> std::ops::Deref for Around<F> {
    type Target = SimpleSparseVector<'static, SimBasis, Sc<F>, SimKey>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<F: Dom> std::ops::DerefMut for Around<F> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<F: Dom> From<SimpleSparseVector<'static, SimBasis, Sc<F>, SimKey>> for Around<F> {
    fn from(v: SimpleSparseVector<'static, SimBasis, Sc<F>, SimKey>) -> Self {
        Around(v)
    }
}
pub struct WSparse<F>(std::marker::PhantomData<F>);
impl<F: Dom> Kind for WSparse<F> {
    type F = F;
    type K = SimKey;
    type V = Around<F>;
    const PROBE: usize = pr::WRAPPED;
    fn domain(size: usize) -> usize {
        Sparse::<F>::domain(size)
    }
    fn key(i: usize) -> SimKey {
        SimKey(i as u32)
    }
    fn stored(v: &Self::V) -> Vec<(usize, F)> {
        Sparse::<F>::stored(&v.0)
    }
    fn dup(v: &Self::V) -> Self::V {
        Vector::to_owned(v)
    }
}

fn tdomain(n: usize, size: usize) -> usize {
    let d = match n {
        1 => [1, 4, 9, 20, 58, 59, 59, 59][size % 8],
        2 => [2, 3, 4, 5, 8, 10, 13, 16][size % 8],
        3 => [1, 2, 3, 3, 5, 7, 8, 10][size % 8],
        4 => [1, 2, 2, 3, 4, 5, 7, 8][size % 8],
        5 | 6 | 7 => [1, 1, 2, 2, 3, 4, 4, 6][size % 8],
        8..=17 => [1, 1, 1, 2, 2, 3, 3, 4][size % 8],
        _ => [0, 1, 1, 1, 1, 2, 2, 2][size % 8],
    };
    words_upto(n, d)
}

pub struct Tens<F, const N: u32>(std::marker::PhantomData<F>);
impl<F: Dom, const N: u32> Kind for Tens<F, N> {
    type F = F;
    type K = TensorKey<N>;
    type V = SimpleDenseVector<'static, TensorBasis<N>, Sc<F>>;
    const PROBE: usize = pr::TENSOR;
    fn domain(size: usize) -> usize {
        tdomain(N as usize, size)
    }
    fn key(i: usize) -> TensorKey<N> {
        TensorKey::from_letters(&word(N as usize, i))
    }
    fn stored(v: &Self::V) -> Vec<(usize, F)> {
        dense_stored(DenseVector::as_slice(v))
    }
    fn dup(v: &Self::V) -> Self::V {
        v.clone()
    }
    fn exact(c: Vec<Sc<F>>) -> Option<Self::V> {
        Some(SimpleDenseVector::from(c))
    }
    fn of_dim(n: usize) -> Option<Self::V> {
        Some((SimpleDenseVector::from_dimension(n)))
    }
    fn resize(v: &mut Self::V, n: usize) -> bool {
        ResizeableDenseVector::resize(v, n);
        true
    }
    fn write_slice(v: &mut Self::V, at: usize, part: bool, x: Sc<F>) -> bool {
        set_slice(v, at, part, x)
    }
    fn is_dense() -> bool {
        true
    }
}

pub struct Wrapped<F, const N: u32>(std::marker::PhantomData<F>);
impl<F: Dom, const N: u32> Kind for Wrapped<F, N> {
    type F = F;
    type K = TensorKey<N>;
    type V = DenseTensor<'static, Sc<F>, N>;
    const PROBE: usize = pr::WRAPPED;
    fn domain(size: usize) -> usize {
        tdomain(N as usize, size)
    }
    fn key(i: usize) -> TensorKey<N> {
        TensorKey::from_letters(&word(N as usize, i))
    }
    fn stored(v: &Self::V) -> Vec<(usize, F)> {
        use std::ops::Deref;
        dense_stored(DenseVector::as_slice(v.deref()))
    }
    fn dup(v: &Self::V) -> Self::V {
        Vector::to_owned(v)
    }
    fn exact(c: Vec<Sc<F>>) -> Option<Self::V> {
        Some(From::from(SimpleDenseVector::from(c)))
    }
    fn of_dim(n: usize) -> Option<Self::V> {
        Some(From::from(SimpleDenseVector::from_dimension(n)))
    }
    fn resize(v: &mut Self::V, n: usize) -> bool {
        ResizeableDenseVector::resize(&mut **v, n);
        true
    }
    fn write_slice(v: &mut Self::V, at: usize, part: bool, x: Sc<F>) -> bool {
        set_slice(&mut **v, at, part, x)
    }
    fn is_dense() -> bool {
        true
    }
}
