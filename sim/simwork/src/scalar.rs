//! Caller-supplied coefficient types: tracked objects whose every operation is a
//! fault opportunity and which notice being used when not alive.
use rustyalgebra::coefficients::{CoefficientBase, CoefficientField, Commutative, FromDegreeType};
use simrt::sched::{fault_now, fault_point, host};
use simrt::{fk, probe, pr, violation, violation_fatal};
use std::borrow::Borrow;
use std::fmt;

pub const P: u64 = 2_147_483_647; // 2^31 - 1

/// Exact value domain of a coefficient field. The reference model computes with
/// the `m_*` functions; the coefficients handed to the library use `l_*`, which
/// for floats are the library's own field operations.
pub trait Dom: Copy + PartialEq + fmt::Debug + Send + Sync + 'static {
    const ZERO: Self;
    const ONE: Self;
    const MONE: Self;
    const L_ZERO: Self;
    const L_ONE: Self;
    const L_MONE: Self;
    const PROBE: usize;
    /// maximal degree of tensors with these coefficients
    const MAXDEG: u32;
    /// no rounding
    const EXACT: bool;
    fn m_abs(self) -> Self;
    fn of_deg(d: u32) -> Self;
    /// magnitude, where it bounds exactness
    fn mag(self) -> f64;
    fn l_inv(self) -> Self;
    fn of(x: i64) -> Self;
    fn m_add(self, o: Self) -> Self;
    fn m_sub(self, o: Self) -> Self;
    fn m_mul(self, o: Self) -> Self;
    fn m_div(self, o: Self) -> Self;
    fn m_neg(self) -> Self {
        Self::ZERO.m_sub(self)
    }
    fn l_add(self, o: Self) -> Self;
    fn l_sub(self, o: Self) -> Self;
    fn l_mul(self, o: Self) -> Self;
    fn l_div(self, o: Self) -> Self;
    fn l_neg(self) -> Self;
    fn l_iadd(&mut self, o: Self);
    fn l_isub(&mut self, o: Self);
    fn l_imul(&mut self, o: Self);
    fn l_idiv(&mut self, o: Self);
    /// within the range where every computation on it stays exact
    fn safe(self) -> bool;
    fn bits(self) -> u64;
    fn text(self) -> String;
    /// a divisor drawn from x, never zero
    fn divisor(x: i64) -> Self;
    fn l_from_i8(x: i8) -> Self;
    fn l_from_deg(d: u32) -> Self;
}

/// The prime field; D is the maximal degree of tensors over it (exp, log).
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct ZpN<const D: u32>(pub u64);
pub type Zp = ZpN<4>;

fn pw(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}

impl<const D: u32> Dom for ZpN<D> {
    const ZERO: Self = ZpN(0);
    const ONE: Self = ZpN(1);
    const MONE: Self = ZpN(P - 1);
    const L_ZERO: Self = ZpN(0);
    const L_ONE: Self = ZpN(1);
    const L_MONE: Self = ZpN(P - 1);
    const PROBE: usize = pr::EXACT;
    const MAXDEG: u32 = D;
    const EXACT: bool = true;
    fn m_abs(self) -> Self {
        self
    }
    fn of_deg(d: u32) -> Self {
        Self::of(d as i64)
    }
    fn mag(self) -> f64 {
        0.0
    }
    fn l_inv(self) -> Self {
        ZpN(1).m_div(self)
    }
    fn of(x: i64) -> Self {
        ZpN(x.rem_euclid(P as i64) as u64)
    }
    fn m_add(self, o: Self) -> Self {
        ZpN((self.0 + o.0) % P)
    }
    fn m_sub(self, o: Self) -> Self {
        ZpN((self.0 + P - o.0) % P)
    }
    fn m_mul(self, o: Self) -> Self {
        ZpN(self.0 * o.0 % P)
    }
    fn m_div(self, o: Self) -> Self {
        ZpN(self.0 * pw(o.0, P - 2) % P)
    }
    fn l_add(self, o: Self) -> Self {
        self.m_add(o)
    }
    fn l_sub(self, o: Self) -> Self {
        self.m_sub(o)
    }
    fn l_mul(self, o: Self) -> Self {
        self.m_mul(o)
    }
    fn l_div(self, o: Self) -> Self {
        self.m_div(o)
    }
    fn l_neg(self) -> Self {
        self.m_neg()
    }
    fn l_iadd(&mut self, o: Self) {
        *self = self.m_add(o)
    }
    fn l_isub(&mut self, o: Self) {
        *self = self.m_sub(o)
    }
    fn l_imul(&mut self, o: Self) {
        *self = self.m_mul(o)
    }
    fn l_idiv(&mut self, o: Self) {
        *self = self.m_div(o)
    }
    fn safe(self) -> bool {
        true
    }
    fn bits(self) -> u64 {
        self.0
    }
    fn text(self) -> String {
        // small residues print as signed numbers
        if self.0 > P / 2 { format!("-{}", P - self.0) } else { format!("{}", self.0) }
    }
    fn divisor(x: i64) -> Self {
        let d = Self::of(x);
        if d.0 == 0 { ZpN(3) } else { d }
    }
    fn l_from_i8(x: i8) -> Self {
        Self::of(x as i64)
    }
    fn l_from_deg(d: u32) -> Self {
        Self::of(d as i64)
    }
}

macro_rules! float_dom {
    ($t:ty, $probe:expr) => {
        impl Dom for $t {
            const ZERO: $t = 0.0;
            const ONE: $t = 1.0;
            const MONE: $t = -1.0;
            const L_ZERO: $t = <$t as CoefficientField>::ZERO;
            const L_ONE: $t = <$t as CoefficientField>::ONE;
            const L_MONE: $t = <$t as CoefficientField>::MONE;
            const PROBE: usize = $probe;
            const MAXDEG: u32 = 3;
            const EXACT: bool = false;
            fn m_abs(self) -> Self {
                self.abs()
            }
            fn of_deg(d: u32) -> Self {
                d as $t
            }
            fn mag(self) -> f64 {
                (self as f64).abs()
            }
            fn l_inv(self) -> Self {
                <$t as CoefficientField>::inv(self)
            }
            fn of(x: i64) -> Self {
                ((x % 13) as $t)
            }
            fn m_add(self, o: Self) -> Self {
                self + o
            }
            fn m_sub(self, o: Self) -> Self {
                self - o
            }
            fn m_mul(self, o: Self) -> Self {
                self * o
            }
            fn m_div(self, o: Self) -> Self {
                self / o
            }
            fn m_neg(self) -> Self {
                -self
            }
            fn l_add(self, o: Self) -> Self {
                CoefficientField::add(&self, &o)
            }
            fn l_sub(self, o: Self) -> Self {
                CoefficientField::sub(&self, &o)
            }
            fn l_mul(self, o: Self) -> Self {
                CoefficientField::mul(&self, &o)
            }
            fn l_div(self, o: Self) -> Self {
                CoefficientField::div(&self, &o)
            }
            fn l_neg(self) -> Self {
                CoefficientField::uminus(&self)
            }
            fn l_iadd(&mut self, o: Self) {
                CoefficientField::add_inplace(self, &o);
            }
            fn l_isub(&mut self, o: Self) {
                CoefficientField::sub_inplace(self, &o);
            }
            fn l_imul(&mut self, o: Self) {
                CoefficientField::mul_inplace(self, &o);
            }
            fn l_idiv(&mut self, o: Self) {
                CoefficientField::div_inplace(self, &o);
            }
            fn safe(self) -> bool {
                // at most 14 significant bits: sums and products of a few stay exact
                self.abs() < 1024.0 && (self * 16.0) == (self * 16.0).trunc()
            }
            fn bits(self) -> u64 {
                (self as f64 + 0.0).to_bits()
            }
            fn text(self) -> String {
                format!("{}", self)
            }
            fn divisor(x: i64) -> Self {
                [1.0, 2.0, 4.0, -1.0, -2.0, -4.0, 0.5][x.rem_euclid(7) as usize]
            }
            fn l_from_i8(x: i8) -> Self {
                x as $t
            }
            fn l_from_deg(d: u32) -> Self {
                <$t as FromDegreeType>::from_degree(&d)
            }
        }
    };
}
float_dom!(f32, pr::FLOAT32);
float_dom!(f64, pr::FLOAT64);

const MAGIC: u32 = 0x5CA1_AB1E;

/// A tracked coefficient. `id` 0 marks a value made from a constant.
pub struct Sc<F: Dom> {
    magic: u32,
    id: u32,
    v: F,
}

/// The rational type that coefficients are divided by.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rat<F: Dom>(pub F);

static mut LIVE: Vec<u8> = Vec::new();
static mut LIVE_COUNT: i64 = 0;
static mut EQ_LIE: bool = false;

#[allow(static_mut_refs)]
fn born() -> u32 {
    unsafe {
        LIVE.push(1);
        LIVE_COUNT += 1;
        LIVE.len() as u32
    }
}

#[allow(static_mut_refs)]
fn alive(magic: u32, id: u32) -> Result<(), &'static str> {
    if magic != MAGIC {
        return Err("something that is not a coefficient");
    }
    unsafe {
        if id != 0 {
            match LIVE.get(id as usize - 1) {
                Some(1) => {}
                Some(_) => return Err("a coefficient that was already released"),
                None => return Err("something that is not a coefficient"),
            }
        }
    }
    Ok(())
}

pub fn live_count() -> i64 {
    unsafe { LIVE_COUNT }
}
#[allow(static_mut_refs)]
pub fn born_count() -> usize {
    unsafe { LIVE.len() }
}
pub fn set_eq_lie(on: bool) {
    unsafe { EQ_LIE = on }
}

impl<F: Dom> Sc<F> {
    pub fn new(v: F) -> Self {
        Sc { magic: MAGIC, id: born(), v }
    }
    fn chk(&self, what: &str) -> F {
        if let Err(e) = alive(self.magic, self.id) {
            if simrt::accepted("conservation") || simrt::accepted("memory") {
                let c = if simrt::accepted("conservation") { "conservation" } else { "memory" };
                violation_fatal(c, &format!("an operation {} {}", what, e));
            }
        }
        self.v
    }
    /// read by the harness
    pub fn val(&self) -> F {
        self.chk("left behind")
    }
}

impl<F: Dom> Drop for Sc<F> {
    fn drop(&mut self) {
        host(|| {
            if self.id == 0 && self.magic == MAGIC {
                return;
            }
            match alive(self.magic, self.id) {
                Ok(()) => unsafe {
                    #[allow(static_mut_refs)]
                    {
                        LIVE[self.id as usize - 1] = 2;
                    }
                    LIVE_COUNT -= 1;
                },
                Err(e) => violation("conservation", &format!("an operation releases {}", e)),
            }
        })
    }
}

fn enter(kind: usize) {
    if simrt::sched::multi() {
        simrt::sched::point(false);
    }
    fault_point(kind);
}

impl<F: Dom> Clone for Sc<F> {
    fn clone(&self) -> Self {
        host(|| {
            let v = self.chk("copies");
            enter(fk::CLONE);
            Sc::new(v)
        })
    }
}

impl<F: Dom> PartialEq for Sc<F> {
    fn eq(&self, o: &Self) -> bool {
        host(|| {
            let (a, b) = (self.chk("compares"), o.chk("compares"));
            enter(fk::EQ);
            if unsafe { EQ_LIE } && fault_now(fk::EQ_LIE) {
                return !(a == b);
            }
            a == b
        })
    }
}

impl<F: Dom> fmt::Debug for Sc<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.v)
    }
}

impl<F: Dom> fmt::Display for Sc<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (t, bad) = host(|| (self.chk("renders").text(), fault_now(fk::RENDER)));
        if bad {
            let _ = f.write_str(&t[..t.len() / 2]);
            return Err(fmt::Error);
        }
        f.write_str(&t)
    }
}

impl<F: Dom> CoefficientBase for Sc<F> {}
impl<F: Dom> Commutative for Sc<F> {}
impl<F: Dom> FromDegreeType for Sc<F> {
    fn from_degree(d: &u32) -> Self {
        host(|| {
            enter(fk::SCALAR);
            Sc::new(F::l_from_deg(*d))
        })
    }
}
impl<F: Dom> From<i8> for Sc<F> {
    fn from(x: i8) -> Self {
        host(|| {
            enter(fk::SCALAR);
            Sc::new(F::l_from_i8(x))
        })
    }
}
impl<F: Dom> From<i16> for Sc<F> {
    fn from(x: i16) -> Self {
        host(|| {
            enter(fk::SCALAR);
            Sc::new(F::l_from_i8(x as i8))
        })
    }
}
impl<F: Dom> From<Rat<F>> for Sc<F> {
    fn from(x: Rat<F>) -> Self {
        host(|| {
            enter(fk::SCALAR);
            Sc::new(x.0)
        })
    }
}
impl<F: Dom> FromDegreeType for Rat<F> {
    fn from_degree(d: &u32) -> Self {
        host(|| {
            enter(fk::SCALAR);
            Rat(F::l_from_deg(*d))
        })
    }
}
impl<F: Dom> From<i8> for Rat<F> {
    fn from(x: i8) -> Self {
        host(|| enter(fk::SCALAR));
        Rat(F::l_from_i8(x))
    }
}
impl<F: Dom> From<i16> for Rat<F> {
    fn from(x: i16) -> Self {
        host(|| enter(fk::SCALAR));
        Rat(F::l_from_i8(x as i8))
    }
}

impl<F: Dom> CoefficientField for Sc<F> {
    type RationalType = Rat<F>;
    const ZERO: Self = Sc { magic: MAGIC, id: 0, v: F::L_ZERO };
    const ONE: Self = Sc { magic: MAGIC, id: 0, v: F::L_ONE };
    const MONE: Self = Sc { magic: MAGIC, id: 0, v: F::L_MONE };

    fn uminus(&self) -> Self {
        host(|| {
            let v = self.chk("negates");
            enter(fk::SCALAR);
            Sc::new(v.l_neg())
        })
    }
    fn inv(arg: impl Borrow<Rat<F>>) -> Self {
        let r = arg.borrow().0;
        host(|| {
            enter(fk::SCALAR);
            Sc::new(r.l_inv())
        })
    }
    fn add(&self, o: &Self) -> Self {
        host(|| {
            let (a, b) = (self.chk("adds"), o.chk("adds"));
            enter(fk::SCALAR);
            Sc::new(a.l_add(b))
        })
    }
    fn sub(&self, o: &Self) -> Self {
        host(|| {
            let (a, b) = (self.chk("subtracts"), o.chk("subtracts"));
            enter(fk::SCALAR);
            Sc::new(a.l_sub(b))
        })
    }
    fn mul(&self, o: &Self) -> Self {
        host(|| {
            let (a, b) = (self.chk("multiplies"), o.chk("multiplies"));
            enter(fk::SCALAR);
            Sc::new(a.l_mul(b))
        })
    }
    fn div(&self, o: &Rat<F>) -> Self {
        let r = o.0;
        host(|| {
            let a = self.chk("divides");
            enter(fk::SCALAR);
            Sc::new(a.l_div(r))
        })
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        host(|| {
            self.chk("adds to");
            let b = o.chk("adds");
            enter(fk::SCALAR);
            self.v.l_iadd(b);
        });
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        host(|| {
            self.chk("subtracts from");
            let b = o.chk("subtracts");
            enter(fk::SCALAR);
            self.v.l_isub(b);
        });
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        host(|| {
            self.chk("multiplies");
            let b = o.chk("multiplies by");
            enter(fk::SCALAR);
            self.v.l_imul(b);
        });
        self
    }
    fn div_inplace(&mut self, o: &Rat<F>) -> &mut Self {
        let r = o.0;
        host(|| {
            self.chk("divides");
            enter(fk::SCALAR);
            self.v.l_idiv(r);
        });
        self
    }
}

pub fn note_domain<F: Dom>() {
    probe(F::PROBE)
}
