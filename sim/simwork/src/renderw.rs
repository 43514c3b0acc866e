//! Rendering vectors and keys to writers that fail.
use crate::bases::*;
use crate::common::*;
use crate::scalar::*;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis, TensorKey};
#[cfg(feature = "hall")]
use rustyalgebra::lie::verif_hooks::HallKey;
use rustyalgebra::vector::SimpleDenseVector;
use simrt::sched::{host, Outcome};
use simrt::{fault_fired, fk, pr, probe, violation, Fault, Op, Plan, Rng};
use std::fmt::{self, Display, Write};

pub const VEC: u16 = 0;
pub const KEY: u16 = 1;
pub const HALL: u16 = 2;

// args: fail byte (-1 never), partial, form (0 display 1 debug), item seed..., values
pub fn gen(seed: u64, _focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("render", seed);
    p.params = vec![r.below(NKINDS) as i64];
    let long = r.chance(1, 200);
    let n = if long { r.range(60, 300) } else { r.range(2, if deep { 10 } else { 6 }) };
    let mut ops = vec![];
    for _ in 0..n {
        let k = r.pick(&[VEC, VEC, VEC, KEY, KEY, HALL]);
        let len = match r.below(6) {
            0 => 0,
            1 if long => r.below(8),
            1 => {
                let m = if r.chance(1, 100) { r.pick(&[6000u64, 6000, 6000, 20000]) } else if deep || r.chance(1, 10) { 1200 } else { 130 };
                r.below(m)
            }
            _ => r.below(40),
        };
        let fail = if r.chance(2, 3) {
            let span = match k {
                VEC => 4 + len * 6,
                _ => 60,
            };
            if r.chance(1, 3) { r.below(8) as i64 } else { r.below(span) as i64 }
        } else {
            -1
        };
        let mut a = vec![fail, r.below(2) as i64, r.below(2) as i64];
        match k {
            VEC => a.extend((0..len).map(|_| pick_val(&mut r))),
            KEY => {
                let l = if r.chance(1, 3) { r.below(4) } else { r.below(62) };
                let span = if r.chance(1, 2) { 1100 } else { 1 << 20 };
                a.extend((0..l).map(|_| r.below(span) as i64))
            }
            _ => a.push(r.below(1 << 20) as i64),
        }
        let mut o = Op { k, a, fault: None };
        if k == VEC && r.chance(1, 4) {
            o.fault = Some(Fault { kind: fk::RENDER as u16, n: pick_n(&mut r, len + 1) });
        }
        ops.push(o);
    }
    p.threads = vec![ops];
    p
}

const NKINDS: u64 = 13;
pub fn exec(p: &Plan) {
    match p.p(0) {
        0 => run::<Zp, 2, false>(p),
        1 => run::<Zp, 3, false>(p),
        2 => run::<Zp, 5, false>(p),
        3 => run::<f64, 2, false>(p),
        4 => run::<f32, 4, false>(p),
        5 => run::<Zp, 7, false>(p),
        6 => run::<Zp, 26, false>(p),
        7 => run::<f64, 10, false>(p),
        8 => run::<Zp, 1000, false>(p),
        9 => run::<Zp, 1, false>(p),
        10 => run::<Zp, 16, false>(p),
        11 => run::<f64, 70000, false>(p),
        _ => run::<Zp, 2, true>(p),
    }
}

struct SimWriter {
    got: String,
    fail: i64,
    partial: bool,
    failed: bool,
    after: u32,
}

impl Write for SimWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        host(|| {
            if self.failed {
                self.after += 1;
                return Err(fmt::Error);
            }
            if self.fail >= 0 && (self.got.len() + s.len()) as i64 > self.fail {
                self.failed = true;
                if self.partial {
                    fault_fired(fk::WRITER_PART);
                    let n = self.fail as usize - self.got.len();
                    self.got.push_str(&s[..n]);
                } else {
                    fault_fired(fk::WRITER);
                }
                return Err(fmt::Error);
            }
            self.got.push_str(s);
            Ok(())
        })
    }
}

fn render(what: &str, want: &str, o: &Op, x: &dyn Fn(&mut SimWriter) -> fmt::Result) {
    let mut w = SimWriter { got: String::new(), fail: o.arg(0), partial: o.arg(1) == 1, failed: false, after: 0 };
    let fault = o.fault.as_ref().map(|f| (f.kind as usize, f.n));
    let (r, fired) = simrt::sched::lib_op(fault, || x(&mut w));
    simrt::log(w.got.len() as u64);
    match r {
        Outcome::Ok(Ok(())) => {
            probe(pr::WRITE_OK);
            if w.failed {
                violation("render", &format!("rendering {} reports success although the writer failed after {:?}", what, w.got));
            } else if fired {
                violation("render", &format!("rendering {} reports success although a coefficient failed to render", what));
            } else if w.got != want {
                violation("render", &format!("rendering {} gives {:?} instead of {:?}", what, clip(&w.got), clip(want)));
            }
        }
        Outcome::Ok(Err(_)) => {
            probe(pr::WRITE_ERR);
            if !w.failed && !fired {
                violation("render", &format!("rendering {} reports failure although nothing failed", what));
            }
            if w.after > 0 {
                violation("render", &format!("rendering {} goes on writing after the writer failed", what));
            }
            if !fired && !want.starts_with(w.got.as_str()) {
                violation(
                    "render",
                    &format!("rendering {}: the writer received {:?}, not a beginning of {:?}", what, clip(&w.got), clip(want)),
                );
            }
            if fired && !want.starts_with(w.got.as_str()) {
                violation(
                    "render",
                    &format!("rendering {} goes on after a coefficient failed to render: {:?}", what, clip(&w.got)),
                );
            }
        }
        Outcome::Injected => {}
        Outcome::Panic(m) => violation("panic", &format!("rendering {} panics: {}", what, m)),
    }
    // once more, to a working writer
    let mut w = SimWriter { got: String::new(), fail: -1, partial: false, failed: false, after: 0 };
    let (r, _) = simrt::sched::lib_op(None, || x(&mut w));
    match r {
        Outcome::Ok(Ok(())) => {
            if w.got != want {
                violation("render", &format!("rendering {} gives {:?} instead of {:?}", what, clip(&w.got), clip(want)));
            }
        }
        Outcome::Ok(Err(_)) => violation("render", &format!("rendering {} reports failure although nothing failed", what)),
        Outcome::Injected => {}
        Outcome::Panic(m) => violation("panic", &format!("rendering {} panics: {}", what, m)),
    }
}

fn clip(s: &str) -> String {
    if s.len() > 200 { format!("{}...", s.chars().take(200).collect::<String>()) } else { s.into() }
}

fn run<F: Dom, const N: u32, const SIM: bool>(p: &Plan) {
    note_domain::<F>();
    for (i, o) in p.threads[0].iter().enumerate() {
        simrt::sched::set_cur_op(i as i32);
        simrt::log(o.k as u64);
        match o.k {
            VEC => {
                // one letter: there are no more keys than that
                let keys = if N == 1 && !SIM { max_depth(N) as usize + 1 } else { usize::MAX };
                let vals: Vec<F> = o.rest(3).iter().take(keys).map(|x| F::of(*x)).collect();
                let c = |v: &Vec<F>| v.iter().map(|x| Sc::new(*x)).collect::<Vec<_>>();
                if SIM {
                    let want: String = vals.iter().enumerate().map(|(i, x)| format!("{}<{}>", x.text(), i)).collect();
                    let v = SimpleDenseVector::<SimBasis, Sc<F>>::from(c(&vals));
                    render("a dense vector", &want, o, &|w| write!(w, "{}", v));
                } else {
                    let want: String =
                        vals.iter().enumerate().map(|(i, x)| format!("{}{}", x.text(), key_text(&word(N as usize, i)))).collect();
                    let v = SimpleDenseVector::<TensorBasis<N>, Sc<F>>::from(c(&vals));
                    if o.arg(2) == 1 {
                        let t: DenseTensor<Sc<F>, N> = v.into();
                        render("a dense tensor", &want, o, &|w| write!(w, "{}", *t));
                    } else {
                        render("a dense tensor", &want, o, &|w| write!(w, "{}", v));
                    }
                }
            }
            KEY => {
                let depth = max_depth(N) as usize;
                let letters: Vec<u32> = o.rest(3).iter().take(depth).map(|x| 1 + x.rem_euclid(N as i64) as u32).collect();
                let want = key_text(&letters);
                let k = TensorKey::<N>::from_letters(&letters);
                if o.arg(2) == 1 {
                    render("a tensor key", &want, o, &|w| write!(w, "{:?}", k));
                } else {
                    render("a tensor key", &want, o, &|w| write!(w, "{}", k));
                }
            }
            #[cfg(feature = "hall")]
            _ => {
                let l = 1 + o.arg(3).rem_euclid(N as i64) as u32;
                let k = HallKey::<N>::from_letter(l);
                render("a Hall letter", &l.to_string(), o, &|w| write!(w, "{}", k));
            }
            #[cfg(not(feature = "hall"))]
            _ => {}
        }
        simrt::sh().ops_done += 1;
    }
    check_all_released();
}

/// how many letters fit into a key of this alphabet
fn max_depth(n: u32) -> u32 {
    let bits = n.ilog2() + 1;
    (64 - (63 / bits).ilog2()) / bits
}
