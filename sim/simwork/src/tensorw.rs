//! Histories of tensor products, exponentials and logarithms, cut short at
//! chosen points, against words and exact coefficients.
use crate::bases::*;
use crate::common::*;
use crate::scalar::*;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::coefficients::CoefficientField;
use rustyalgebra::free_tensor::{FreeTensor, TensorBasis};
use rustyalgebra::vector::{DenseVector, SimpleDenseVector, Vector};
use simrt::{fk, pr, probe, violation, Op, Plan, Rng};

pub type Tn<F, const N: u32> = SimpleDenseVector<'static, TensorBasis<N>, Sc<F>>;

impl<'v, F: Dom, const N: u32> FreeTensor<'v, Sc<F>, N> for SimpleDenseVector<'v, TensorBasis<N>, Sc<F>> {
    const MAX_DEGREE: u32 = F::MAXDEG;
}

const NREG: usize = 4;
pub const MAKE: u16 = 0; // exactly the given coordinates, any length
pub const BUILD: u16 = 1;
pub const MUL: u16 = 2;
pub const ADDMUL: u16 = 3;
pub const SUBMUL: u16 = 4;
pub const ACC: u16 = 5;
pub const IMUL: u16 = 6;
pub const ISCALL: u16 = 7;
pub const ISCALR: u16 = 8;
pub const IDIVL: u16 = 9;
pub const IDIVR: u16 = 10;
pub const IFUNC: u16 = 11;
pub const COMM: u16 = 12;
pub const VADD: u16 = 13;
pub const VSCALE: u16 = 14;
pub const VCLEAR: u16 = 15;
pub const EXP: u16 = 20;
pub const LOG: u16 = 21;
pub const FMEXP: u16 = 22;

pub fn gen(seed: u64, focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("tensor", seed);
    let explog = focus == "C08" || (focus == "C09" && r.chance(1, 4));
    let kind = if !explog {
        r.below(NKIND)
    } else if r.chance(1, 60) {
        27 // everything beyond the constant term is cut
    } else if focus == "C08" && r.chance(1, 8) {
        // high degrees
        NKIND + r.below(if deep { NHIGH } else { NHIGH - 1 })
    } else {
        r.below(NKIND)
    } as i64;
    let (n, maxd) = shape(kind);
    // size class: the degree histories work up to
    let top = if explog {
        maxd
    } else {
        match n {
            1 => 20,
            2 if r.chance(1, 60) => 11,
            2 => 8,
            3 if r.chance(1, 60) => 7,
            3 => 5,
            4 => 4,
            5..=7 => 3,
            _ => 2,
        }
    };
    let long = !explog && r.chance(1, 250);
    let deg = if explog {
        maxd
    } else if long {
        1
    } else if top > 8 && n < 4 && n > 1 || n == 3 && top > 5 {
        r.range(top as i64 - 2, top as i64) as u32
    } else if deep || r.chance(1, 12) {
        r.range(1, top as i64) as u32
    } else {
        r.range(1, (top as i64 - 1).min(12).max(2)) as u32
    };
    p.params = vec![kind, deg as i64, explog as i64];
    let cap = words_upto(n as usize, deg);
    let mut ops = vec![];
    for d in 0..NREG as i64 {
        let mut o = op(&mut r, MAKE, cap, deg, explog);
        o.a[0] = d;
        ops.push(o);
    }
    let big = cap > 130;
    let cnt = if long { r.range(80, 400) } else { r.range(2, if explog && cap > 300 || cap > 600 { 3 } else if big { 6 } else { 14 }) };
    for _ in 0..cnt {
        let k = if explog {
            r.pick(&[EXP, LOG, FMEXP, EXP, LOG, FMEXP, MAKE, MUL])
        } else if focus == "C06" {
            r.pick(&[MUL, MUL, COMM, COMM, ADDMUL, IMUL, MAKE, BUILD])
        } else {
            r.pick(&[
                MUL, MUL, ADDMUL, ADDMUL, SUBMUL, ACC, IMUL, IMUL, ISCALL, ISCALR, IDIVL, IDIVR, IFUNC, COMM, MAKE, MAKE, BUILD,
                VADD, VSCALE, VCLEAR,
            ])
        };
        let mut o = op(&mut r, k, cap, deg, explog);
        if r.chance(1, 2) {
            let kinds = [fk::SCALAR, fk::SCALAR, fk::SCALAR, fk::CLONE, fk::CLONE, fk::ALLOC, fk::FUNC, fk::EQ];
            let span = if explog { 3 * cap as u64 * deg.max(1) as u64 } else { 3 * cap as u64 };
            o.fault = Some(pick_fault(&mut r, &kinds, span));
        }
        ops.push(o);
    }
    p.threads = vec![ops];
    p
}

// args: dst, x, y, scalar, to_degree, flags, values...
fn op(r: &mut Rng, k: u16, cap: usize, deg: u32, explog: bool) -> Op {
    let td = match r.below(5) {
        0 => r.below(deg as u64 + 1) as i64,
        _ => deg as i64,
    };
    let mut a = vec![
        r.below(NREG as u64) as i64,
        r.below(NREG as u64) as i64,
        r.below(NREG as u64) as i64,
        pick_val(r),
        td,
        r.below(16) as i64,
    ];
    if k == MAKE || k == BUILD {
        let len = match r.below(6) {
            0 => 0,
            1 => cap as u64,
            _ => 1 + r.below(cap as u64),
        };
        let sparse = r.chance(1, 2);
        for i in 0..len {
            let v = if sparse && r.chance(3, 4) { 0 } else { pick_val(r) };
            // the constant term decides special cases: 0, 1, or something else
            let v = if i == 0 {
                match r.below(4) {
                    0 => v,
                    1 | 2 => (!explog || r.chance(1, 2)) as i64,
                    _ => 0,
                }
            } else {
                v
            };
            a.push(v);
        }
    }
    Op { k, a, fault: None }
}

const NKIND: u64 = 19;
const NHIGH: u64 = 8;
macro_rules! kinds {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k {
            0 => $f::<ZpN<4>, 2>($($a),*),
            1 => $f::<ZpN<3>, 3>($($a),*),
            2 => $f::<ZpN<2>, 5>($($a),*),
            3 => $f::<ZpN<5>, 2>($($a),*),
            4 => $f::<ZpN<3>, 4>($($a),*),
            5 => $f::<ZpN<1>, 3>($($a),*),
            6 => $f::<ZpN<6>, 2>($($a),*),
            7 => $f::<ZpN<2>, 2>($($a),*),
            8 => $f::<ZpN<5>, 1>($($a),*),
            9 => $f::<ZpN<0>, 2>($($a),*),
            10 => $f::<ZpN<4>, 3>($($a),*),
            11 => $f::<ZpN<2>, 10>($($a),*),
            12 => $f::<ZpN<1>, 26>($($a),*),
            13 => $f::<ZpN<7>, 2>($($a),*),
            14 => $f::<ZpN<2>, 7>($($a),*),
            15 => $f::<f64, 2>($($a),*),
            16 => $f::<f32, 3>($($a),*),
            17 => $f::<f64, 4>($($a),*),
            18 => $f::<f64, 1>($($a),*),
            19 => $f::<ZpN<8>, 2>($($a),*),
            20 => $f::<ZpN<9>, 2>($($a),*),
            21 => $f::<ZpN<12>, 1>($($a),*),
            22 => $f::<ZpN<40>, 1>($($a),*),
            23 => $f::<ZpN<5>, 3>($($a),*),
            24 => $f::<ZpN<1>, 1>($($a),*),
            25 => $f::<ZpN<3>, 7>($($a),*),
            27 => $f::<ZpN<0>, 2>($($a),*),
            _ => $f::<ZpN<11>, 2>($($a),*),
        }
    };
}
fn shape_of<F: Dom, const N: u32>() -> (u32, u32) {
    (N, F::MAXDEG)
}
fn shape(kind: i64) -> (u32, u32) {
    kinds!(kind, shape_of,)
}
pub fn exec(p: &Plan) {
    kinds!(p.p(0), run, p)
}

fn name(k: u16) -> &'static str {
    match k {
        MAKE => "from",
        BUILD => "from_iterator",
        MUL => "multiply",
        ADDMUL => "add_mul",
        SUBMUL => "sub_mul",
        ACC => "multiply_and_add_into_impl",
        IMUL => "multiply_inplace",
        ISCALL => "mul_scal_lprod",
        ISCALR => "mul_scal_rprod",
        IDIVL => "mul_rat_ldiv",
        IDIVR => "mul_rat_rdiv",
        IFUNC => "multiply_into_impl",
        COMM => "commutator",
        VADD => "add_inplace",
        VSCALE => "scalar_lmultiply_inplace",
        VCLEAR => "clear",
        EXP => "exp",
        LOG => "log",
        FMEXP => "fmexp",
        _ => "?",
    }
}

/// Words, precomputed for one alphabet: index and degree arithmetic of the model.
pub struct Words {
    pub n: usize,
    pub cap: usize,
    pub deg: Vec<u32>,
    pub pow: Vec<usize>,
}
impl Words {
    pub fn new(n: usize, d: u32) -> Words {
        let cap = words_upto(n, d);
        Words { n, cap, deg: (0..cap).map(|i| word_degree(n, i)).collect(), pow: (0..=d).map(|k| n.pow(k)).collect() }
    }
    /// index of the concatenation
    pub fn cat(&self, u: usize, v: usize) -> usize {
        u * self.pow[self.deg[v] as usize] + v
    }
    /// contributions of a product, by word; None if not exactly representable
    pub fn contrib<F: Dom>(&self, x: &[F], y: &[F], to: u32, scale: F) -> Option<Vec<Vec<F>>> {
        let mut out = vec![vec![]; self.cap];
        for (u, a) in x.iter().enumerate() {
            if *a == F::ZERO {
                continue;
            }
            for (v, b) in y.iter().enumerate() {
                if self.deg[u] + self.deg[v] > to {
                    break; // shortlex order: later words are no shorter
                }
                if *b == F::ZERO {
                    continue;
                }
                let t = a.m_mul(*b);
                let s = t.m_mul(scale);
                if !t.safe() || !s.safe() {
                    return None;
                }
                out[self.cat(u, v)].push(s);
            }
        }
        if out.iter().any(|c| c.iter().map(|x| x.mag()).sum::<f64>() > 900.0) {
            return None;
        }
        Some(out)
    }
    /// product without regard to rounding
    fn mul_raw<F: Dom>(&self, x: &[F], y: &[F], to: u32) -> Vec<F> {
        let mut out = vec![F::ZERO; self.cap];
        for (u, a) in x.iter().enumerate() {
            if *a == F::ZERO {
                continue;
            }
            for (v, b) in y.iter().enumerate() {
                if self.deg[u] + self.deg[v] > to {
                    break;
                }
                if *b != F::ZERO {
                    let c = self.cat(u, v);
                    out[c] = out[c].m_add(a.m_mul(*b));
                }
            }
        }
        out
    }
    pub fn mul<F: Dom>(&self, x: &[F], y: &[F], to: u32, scale: F) -> Option<Vec<F>> {
        Some(self.contrib(x, y, to, scale)?.iter().map(|c| sum(c)).collect())
    }
}
pub fn sum<F: Dom>(c: &[F]) -> F {
    c.iter().fold(F::ZERO, |a, b| a.m_add(*b))
}

fn subset_ok<F: Dom>(delta: F, c: &[F]) -> bool {
    if c.len() > 16 {
        return true;
    }
    (0u32..1 << c.len()).any(|m| {
        let mut t = F::ZERO;
        for (i, x) in c.iter().enumerate() {
            if m >> i & 1 == 1 {
                t = t.m_add(*x);
            }
        }
        t == delta
    })
}

struct St<F: Dom, const N: u32> {
    regs: Vec<Tn<F, N>>,
    model: Vec<Vec<F>>,
    w: Words,
}

fn obs<F: Dom, const N: u32>(v: &Tn<F, N>, cap: usize) -> Result<Vec<F>, String> {
    observe::<Tens<F, N>>(v, cap)
}

fn run<F: Dom, const N: u32>(p: &Plan) {
    probe(pr::TENSOR);
    note_domain::<F>();
    let w = Words::new(N as usize, p.p(1) as u32);
    if w.cap > 256 {
        probe(pr::LARGE);
    }
    if p.p(1) >= 5 {
        probe(pr::DEG5);
    }
    let mut s: St<F, N> = St { regs: (0..NREG).map(|_| Tn::new()).collect(), model: vec![vec![F::ZERO; w.cap]; NREG], w };
    for (i, o) in p.threads[0].iter().enumerate() {
        simrt::sched::set_cur_op(i as i32);
        simrt::log(o.k as u64);
        step(o, &mut s, p.p(2) != 0);
        simrt::sh().ops_done += 1;
    }
    drop(s);
    check_all_released();
}

fn others<F: Dom, const N: u32>(o: &Op, skip: usize, s: &mut St<F, N>) {
    for i in 0..NREG {
        if i == skip {
            continue;
        }
        match obs(&s.regs[i], s.w.cap) {
            Ok(v) => {
                if let Some(j) = diff(&v, &s.model[i]) {
                    violation(
                        "operand",
                        &format!(
                            "{} changes the coefficient of word {:?} of a tensor it only reads: {} became {}",
                            name(o.k),
                            word(N as usize, j),
                            s.model[i][j].text(),
                            v[j].text()
                        ),
                    );
                    s.model[i] = v;
                }
            }
            Err(e) => {
                violation("operand", &format!("{} disturbs a tensor it only reads: {}", name(o.k), e));
                return;
            }
        }
    }
}

fn settle<F: Dom, const N: u32>(o: &Op, d: usize, s: &mut St<F, N>, class: &str) {
    match obs(&s.regs[d], s.w.cap) {
        Ok(v) => {
            log_vals(&v);
            if let Some(i) = diff(&v, &s.model[d]) {
                violation(
                    class,
                    &format!(
                        "after {} (bound {}) the coefficient of word {:?} is {} instead of {}",
                        name(o.k),
                        o.arg(4),
                        word(N as usize, i),
                        v[i].text(),
                        s.model[d][i].text()
                    ),
                );
                s.model[d] = v;
            }
        }
        Err(e) => violation(class, &format!("after {}: {}", name(o.k), e)),
    }
}

fn values<F: Dom>(o: &Op, cap: usize) -> Vec<F> {
    let mut v: Vec<F> = o.rest(6).iter().take(cap).map(|x| F::of(*x)).collect();
    // keep float products small enough to stay exact
    for x in v.iter_mut() {
        if x.mag() > 3.0 {
            *x = F::of(2);
        }
    }
    v
}

fn series<F: Dom>(w: &Words, x: &[F], to: u32, coef: impl Fn(u32) -> F, start: &[F]) -> Vec<F> {
    // start * sum coef(k) x^k, truncated
    let mut pow = start.to_vec();
    let mut out: Vec<F> = vec![F::ZERO; w.cap];
    for k in 0..=to {
        let c = coef(k);
        for i in 0..w.cap {
            if w.deg[i] <= to {
                out[i] = out[i].m_add(pow[i].m_mul(c));
            }
        }
        pow = w.mul_raw(&pow, x, to);
    }
    out
}

/// x without its constant term
fn proper<F: Dom>(x: &[F]) -> Vec<F> {
    let mut y = x.to_vec();
    y[0] = F::ZERO;
    y
}
fn unit<F: Dom>(w: &Words) -> Vec<F> {
    let mut u = vec![F::ZERO; w.cap];
    u[0] = F::ONE;
    u
}

pub fn exp_model<F: Dom>(w: &Words, x: &[F], to: u32, start: &[F]) -> Vec<F> {
    let mut inv = vec![F::ONE];
    for k in 1..=to {
        let l = *inv.last().unwrap();
        inv.push(l.m_div(F::of_deg(k)));
    }
    series(w, &proper(x), to, |k| inv[k as usize], start)
}
pub fn log_model<F: Dom>(w: &Words, x: &[F], to: u32) -> Vec<F> {
    series(
        w,
        &proper(x),
        to,
        |k| {
            if k == 0 {
                F::ZERO
            } else {
                let t = F::ONE.m_div(F::of_deg(k));
                if k % 2 == 0 { t.m_neg() } else { t }
            }
        },
        &unit(w),
    )
}

/// Result of a series: exact, or for floats within rounding of the terms summed.
fn settle_series<F: Dom, const N: u32>(o: &Op, d: usize, s: &mut St<F, N>, want: Vec<F>, size: Vec<F>) {
    if F::EXACT {
        s.model[d] = want;
        settle(o, d, s, "explog");
        return;
    }
    match obs(&s.regs[d], s.w.cap) {
        Ok(v) => {
            log_vals(&v);
            let off = |i: usize| !(v[i].m_sub(want[i]).mag() <= 1e-3 * (1.0 + size[i].mag()));
            if let Some(i) = (0..s.w.cap).find(|&i| off(i)) {
                violation(
                    "explog",
                    &format!(
                        "after {} the coefficient of word {:?} is {} instead of about {}",
                        name(o.k),
                        word(N as usize, i),
                        v[i].text(),
                        want[i].text()
                    ),
                );
            }
        }
        Err(e) => violation("explog", &format!("after {}: {}", name(o.k), e)),
    }
    // rounded values would spoil the exactness of later operations
    s.regs[d] = Tn::new();
    s.model[d] = vec![F::ZERO; s.w.cap];
}

fn step<F: Dom, const N: u32>(o: &Op, s: &mut St<F, N>, explog: bool) {
    let (d, xi, yi) = (o.idx(0, NREG), o.idx(1, NREG), o.idx(2, NREG));
    let cap = s.w.cap;
    let top = *s.w.deg.last().unwrap();
    let to = (o.arg(4).max(0) as u32).min(top);
    let what = name(o.k);
    let sc = F::of(o.arg(3));
    let rt = F::divisor(o.arg(3));
    match o.k {
        MAKE => {
            let v = values::<F>(o, cap);
            let c: Vec<Sc<F>> = v.iter().map(|x| Sc::new(*x)).collect();
            s.regs[d] = SimpleDenseVector::from(c);
            s.model[d] = v;
            s.model[d].resize(cap, F::ZERO);
        }
        BUILD => {
            let v = values::<F>(o, cap);
            let items: Vec<_> =
                v.iter().enumerate().filter(|(_, x)| **x != F::ZERO).map(|(i, x)| (Tens::<F, N>::key(i), Sc::new(*x))).collect();
            if let Call::Done(t) = call_op(what, o, || Tn::<F, N>::from_iterator(items)) {
                s.regs[d] = t;
                s.model[d] = v;
                s.model[d].resize(cap, F::ZERO);
                settle(o, d, s, "build");
            }
            others(o, d, s);
        }
        MUL | COMM => {
            let want = match o.k {
                MUL => s.w.mul(&s.model[xi], &s.model[yi], to, F::ONE),
                _ => (|| {
                    let a = s.w.mul(&s.model[xi], &s.model[yi], to, F::ONE)?;
                    let b = s.w.mul(&s.model[yi], &s.model[xi], to, F::ONE)?;
                    let c: Vec<F> = a.iter().zip(&b).map(|(x, y)| x.m_sub(*y)).collect();
                    if c.iter().all(|x| x.safe()) { Some(c) } else { None }
                })(),
            };
            let want = match want {
                Some(w) => w,
                None => {
                    probe(pr::SKIPPED_INEXACT);
                    return;
                }
            };
            note_shape(s, xi, yi, to);
            let lim = bound(s, o, xi, yi, to);
            for attempt in 0..2 {
                let (x, y) = (&s.regs[xi], &s.regs[yi]);
                let f = || if o.k == MUL { x.multiply(y, lim) } else { x.commutator(y, lim) };
                let r = if attempt == 0 {
                    call_op(what, o, f)
                } else {
                    probe(pr::RETRIED);
                    match call(what, f) {
                        Some(v) => Call::Done(v),
                        None => Call::Bad,
                    }
                };
                others(o, NREG, s);
                match r {
                    Call::Done(v) => {
                        s.regs[d] = v;
                        s.model[d] = want;
                        settle(o, d, s, "product");
                        others(o, d, s);
                        break;
                    }
                    Call::Cut => continue,
                    Call::Bad => break,
                }
            }
        }
        ADDMUL | SUBMUL | ACC => {
            let scale = match o.k {
                ADDMUL => F::ONE,
                SUBMUL => F::MONE,
                _ => sc,
            };
            let old = s.model[d].clone();
            let con = match s.w.contrib(&s.model[xi], &s.model[yi], to, scale) {
                Some(c) if c.iter().zip(&old).all(|(c, x)| x.m_add(sum(c)).safe()) => c,
                _ => {
                    probe(pr::SKIPPED_INEXACT);
                    return;
                }
            };
            note_shape(s, xi, yi, to);
            let lim = bound(s, o, xi, yi, to);
            let mut dst = std::mem::replace(&mut s.regs[d], Tn::new());
            // an accumulator that is also an operand is passed as a copy
            let copy = if d == xi || d == yi { call("to_owned", || Vector::to_owned(&dst)) } else { None };
            if (d == xi || d == yi) && copy.is_none() {
                s.regs[d] = dst;
                return;
            }
            let before = DenseVector::as_slice(&dst).len();
            let r = {
                let x = if d == xi { copy.as_ref().unwrap() } else { &s.regs[xi] };
                let y = if d == yi { copy.as_ref().unwrap() } else { &s.regs[yi] };
                let k = simrt::host(|| Sc::new(sc));
                call_op(what, o, || match o.k {
                    ADDMUL => {
                        dst.add_mul(x, y, lim);
                    }
                    SUBMUL => {
                        dst.sub_mul(x, y, lim);
                    }
                    _ => dst.multiply_and_add_into_impl(
                        x,
                        y,
                        |v| {
                            simrt::sched::fault_point(fk::FUNC);
                            k.mul(v)
                        },
                        lim,
                    ),
                })
            };
            drop(copy);
            if DenseVector::as_slice(&dst).len() > before {
                probe(pr::GREW);
            }
            s.regs[d] = dst;
            match r {
                Call::Done(()) => {
                    s.model[d] = old.iter().zip(&con).map(|(x, c)| x.m_add(sum(c))).collect();
                    settle(o, d, s, "product");
                }
                Call::Cut => match obs(&s.regs[d], cap) {
                    Ok(v) => {
                        if let Some(i) = (0..cap).find(|&i| !subset_ok(v[i].m_sub(old[i]), &con[i])) {
                            violation(
                                "product",
                                &format!(
                                    "{} cut short changes word {:?} from {} to {}, which no selection of the contributions {} explains",
                                    what,
                                    word(N as usize, i),
                                    old[i].text(),
                                    v[i].text(),
                                    show(&con[i])
                                ),
                            );
                        }
                        if diff(&v, &old).is_some() {
                            probe(pr::PARTIAL);
                        }
                        s.model[d] = v;
                    }
                    Err(e) => violation("product", &format!("{} cut short: {}", what, e)),
                },
                Call::Bad => {}
            }
            others(o, d, s);
        }
        IMUL..=IFUNC => {
            let scale = match o.k {
                IMUL => F::ONE,
                ISCALL | ISCALR | IFUNC => sc,
                _ => F::ONE.m_div(rt),
            };
            let want = match s.w.mul(&s.model[d], &s.model[xi], to, scale) {
                Some(w) => w,
                None => {
                    probe(pr::SKIPPED_INEXACT);
                    return;
                }
            };
            note_shape(s, d, xi, to);
            let lim = bound(s, o, d, xi, to);
            match s.model[xi][0] {
                c if c == F::ONE => probe(pr::ONE_UNIT),
                c if c == F::ZERO => probe(pr::ZERO_UNIT),
                _ => {}
            }
            let mut dst = std::mem::replace(&mut s.regs[d], Tn::new());
            let copy = if d == xi || o.arg(5) & 2 == 2 {
                let r = if d == xi { &dst } else { &s.regs[xi] };
                match call("to_owned", || Vector::to_owned(r)) {
                    Some(c) => Some(c),
                    None => {
                        s.regs[d] = dst;
                        return;
                    }
                }
            } else {
                None
            };
            let small = o.arg(5) & 1 == 1 && o.arg(3).abs() < 13 && o.k != IDIVL && o.k != IDIVR;
            let r = {
                let x = match &copy {
                    Some(c) => c,
                    None => &s.regs[xi],
                };
                let (k, q) = (Sc::new(sc), Rat(rt));
                let sv = o.arg(3) as i8;
                call_op(what, o, || match o.k {
                    IMUL => {
                        dst.multiply_inplace(x, lim);
                    }
                    ISCALL if small => {
                        dst.mul_scal_lprod(x, sv, lim);
                    }
                    ISCALL => {
                        dst.mul_scal_lprod(x, k, lim);
                    }
                    ISCALR if small => {
                        dst.mul_scal_rprod(x, sv, lim);
                    }
                    ISCALR => {
                        dst.mul_scal_rprod(x, k, lim);
                    }
                    IDIVL => {
                        dst.mul_rat_ldiv(x, q, lim);
                    }
                    IDIVR => {
                        dst.mul_rat_rdiv(x, q, lim);
                    }
                    _ => dst.multiply_into_impl(
                        x,
                        |v| {
                            simrt::sched::fault_point(fk::FUNC);
                            k.mul(v)
                        },
                        lim,
                    ),
                })
            };
            drop(copy);
            s.regs[d] = dst;
            match r {
                Call::Done(()) => {
                    s.model[d] = want;
                    settle(o, d, s, "product");
                }
                Call::Cut => adopt(s, d),
                Call::Bad => {}
            }
            others(o, d, s);
        }
        VADD => {
            let want: Vec<F> = s.model[d].iter().zip(&s.model[xi]).map(|(a, b)| a.m_add(*b)).collect();
            if d == xi || !want.iter().all(|x| x.safe()) {
                return;
            }
            let mut dst = std::mem::replace(&mut s.regs[d], Tn::new());
            let x = &s.regs[xi];
            let r = call_op(what, o, || {
                dst.add_inplace(x);
            });
            s.regs[d] = dst;
            match r {
                Call::Done(()) => {
                    s.model[d] = want;
                    settle(o, d, s, "inplace");
                }
                _ => adopt(s, d),
            }
            others(o, d, s);
        }
        VSCALE => {
            let want: Vec<F> = s.model[d].iter().map(|a| a.m_mul(sc)).collect();
            if !want.iter().all(|x| x.safe()) {
                return;
            }
            let k = Sc::new(sc);
            let dst = &mut s.regs[d];
            match call_op(what, o, || {
                dst.scalar_lmultiply_inplace(k);
            }) {
                Call::Done(()) => {
                    s.model[d] = want;
                    settle(o, d, s, "inplace");
                }
                _ => adopt(s, d),
            }
            others(o, d, s);
        }
        VCLEAR => {
            let dst = &mut s.regs[d];
            if let Call::Done(()) = call_op(what, o, || dst.clear()) {
                s.model[d] = vec![F::ZERO; cap];
                settle(o, d, s, "inplace");
            } else {
                adopt(s, d);
            }
        }
        EXP | LOG | FMEXP if explog => {
            let md = F::MAXDEG;
            let (want, size) = {
                let arg = &s.model[xi];
                let abs: Vec<F> = arg.iter().map(|x| x.m_abs()).collect();
                match o.k {
                    EXP if arg[0] == F::ZERO => {
                        let u = unit(&s.w);
                        (exp_model(&s.w, arg, md, &u), exp_model(&s.w, &abs, md, &u))
                    }
                    EXP => return,
                    LOG => (log_model(&s.w, arg, md), exp_model(&s.w, &abs, md, &unit(&s.w)).iter().map(|x| x.m_mul(F::of(6))).collect()),
                    _ => {
                        let st: Vec<F> = s.model[d].iter().map(|x| x.m_abs()).collect();
                        (exp_model(&s.w, arg, md, &s.model[d]), exp_model(&s.w, &abs, md, &st))
                    }
                }
            };
            if !F::EXACT && size.iter().any(|x| x.mag() > 1e6) {
                return;
            }
            if o.k == FMEXP {
                let mut dst = std::mem::replace(&mut s.regs[d], Tn::new());
                // a left factor that is also the argument is passed as a copy
                let copy = if d == xi {
                    match call("to_owned", || Vector::to_owned(&dst)) {
                        Some(c) => Some(c),
                        None => {
                            s.regs[d] = dst;
                            return;
                        }
                    }
                } else {
                    None
                };
                let keep = s.model[d].clone();
                let mut r = {
                    let x = copy.as_ref().unwrap_or(&s.regs[xi]);
                    call_op(what, o, || {
                        dst.fmexp(x);
                    })
                };
                if let Call::Cut = r {
                    // put the old left factor back and repeat
                    others(o, d, s);
                    probe(pr::RETRIED);
                    dst = SimpleDenseVector::from(keep.iter().map(|x| Sc::new(*x)).collect::<Vec<_>>());
                    let x = copy.as_ref().unwrap_or(&s.regs[xi]);
                    r = match call(what, || {
                        dst.fmexp(x);
                    }) {
                        Some(()) => Call::Done(()),
                        None => Call::Bad,
                    };
                }
                if let Some(c) = &copy {
                    match obs(c, cap) {
                        Ok(v) if diff(&v, &keep).is_none() => {}
                        _ => violation("operand", "fmexp changes its argument"),
                    }
                }
                drop(copy);
                s.regs[d] = dst;
                match r {
                    Call::Done(()) => settle_series(o, d, s, want, size),
                    _ => adopt(s, d),
                }
                others(o, d, s);
                return;
            }
            for attempt in 0..2 {
                let x = &s.regs[xi];
                let f = || if o.k == EXP { x.exp() } else { x.log() };
                let r = if attempt == 0 {
                    call_op(what, o, f)
                } else {
                    probe(pr::RETRIED);
                    match call(what, f) {
                        Some(v) => Call::Done(v),
                        None => Call::Bad,
                    }
                };
                others(o, NREG, s);
                match r {
                    Call::Done(v) => {
                        s.regs[d] = v;
                        settle_series(o, d, s, want, size);
                        others(o, d, s);
                        break;
                    }
                    Call::Cut => continue,
                    Call::Bad => break,
                }
            }
        }
        _ => {}
    }
}

/// The bound handed to the library. One that nothing reaches may as well be larger.
fn bound<F: Dom, const N: u32>(s: &St<F, N>, o: &Op, x: usize, y: usize, to: u32) -> Option<u32> {
    let top = *s.w.deg.last().unwrap();
    let deg = |i: usize| match DenseVector::as_slice(&s.regs[i]).len() {
        0 => 0,
        l => word_degree(N as usize, l - 1),
    };
    if to == top && o.arg(5) & 8 == 8 && deg(x) + deg(y) <= top {
        probe(pr::WIDE_BOUND);
        let far = [40, 255, 256, 1 << 16, u32::MAX - 1, u32::MAX][o.arg(3).rem_euclid(6) as usize];
        return Some([top + 1, top + 2, far, far][(o.arg(5) >> 1 & 3) as usize]);
    }
    Some(to)
}

fn adopt<F: Dom, const N: u32>(s: &mut St<F, N>, d: usize) {
    match obs(&s.regs[d], s.w.cap) {
        Ok(v) if v.iter().all(|x| x.safe() && x.mag() < 900.0) => s.model[d] = v,
        _ => {
            s.regs[d] = Tn::new();
            s.model[d] = vec![F::ZERO; s.w.cap];
        }
    }
}

fn note_shape<F: Dom, const N: u32>(s: &St<F, N>, x: usize, y: usize, to: u32) {
    let lx = DenseVector::as_slice(&s.regs[x]).len();
    let ly = DenseVector::as_slice(&s.regs[y]).len();
    let full = |l: usize| l > 0 && words_upto(N as usize, word_degree(N as usize, l - 1)) == l;
    if !full(lx) || !full(ly) {
        probe(pr::PARTIAL_DEGREE);
    }
    if lx > 0 && ly > 0 && lx - 1 < s.w.cap && ly - 1 < s.w.cap && s.w.deg[lx - 1] + s.w.deg[ly - 1] > to {
        probe(pr::TRUNC);
    }
}
