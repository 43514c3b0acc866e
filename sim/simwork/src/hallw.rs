//! Callers racing on the shared Hall sets: requests, lookups, growth, stalls,
//! spurious wake-ups and callers that die while growing.
use rustyalgebra::lie::verif_hooks::{get_hall_set, HallKey, HallSet, HallSetError, HallSetObject};
use simrt::sched::{self, Outcome};
use simrt::{fault_fired, fk, pr, probe, violation, Fault, Op, Plan, Rng};
use std::sync::{Arc, Mutex, OnceLock};

const NW: usize = 35;
pub const WIDTHS: [u32; NW] = [2, 3, 4, 5, 6, 7, 12, 25, 1, 10, 11, 20, 21, 258, 8, 9, 13, 14, 15, 16, 17, 18, 19, 22, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34];
/// growth requested in most histories goes up to this degree
const GEND: [u32; NW] = [9, 6, 4, 4, 3, 3, 3, 2, 6, 3, 3, 2, 2, 1, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2];
/// and in a few up to this one
const MAXD: [u32; NW] = [13, 7, 5, 5, 4, 4, 4, 3, 20, 4, 4, 3, 3, 1, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3];
/// the last growth of a run goes one further, but not where that costs too much
const LASTD: [u32; NW] = [10, 6, 5, 4, 4, 3, 3, 2, 7, 3, 3, 3, 2, 1, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2];

pub const GET: u16 = 0;
pub const GROW: u16 = 1;
pub const ISLETTER: u16 = 2;
pub const KEYD: u16 = 3;
pub const LPAR: u16 = 4;
pub const RPAR: u16 = 5;
pub const RANGE: u16 = 6;
pub const NAV: u16 = 7;
pub const STALL: u16 = 8;
/// the last elements of all degrees, from the highest or the lowest
pub const SCAN: u16 = 9;
/// the caller lets go of its handles
pub const DROP: u16 = 10;
/// a lookup, many calls for growth, and the same lookup again
pub const HAMMER: u16 = 11;

macro_rules! by_width {
    ($w:expr, $f:ident, $($a:expr),*) => {
        match $w {
            0 => $f::<2>($($a),*),
            1 => $f::<3>($($a),*),
            2 => $f::<4>($($a),*),
            3 => $f::<5>($($a),*),
            4 => $f::<6>($($a),*),
            5 => $f::<7>($($a),*),
            6 => $f::<12>($($a),*),
            7 => $f::<25>($($a),*),
            8 => $f::<1>($($a),*),
            9 => $f::<10>($($a),*),
            10 => $f::<11>($($a),*),
            11 => $f::<20>($($a),*),
            12 => $f::<21>($($a),*),
            13 => $f::<258>($($a),*),
            14 => $f::<8>($($a),*),
            15 => $f::<9>($($a),*),
            16 => $f::<13>($($a),*),
            17 => $f::<14>($($a),*),
            18 => $f::<15>($($a),*),
            19 => $f::<16>($($a),*),
            20 => $f::<17>($($a),*),
            21 => $f::<18>($($a),*),
            22 => $f::<19>($($a),*),
            23 => $f::<22>($($a),*),
            24 => $f::<23>($($a),*),
            25 => $f::<24>($($a),*),
            26 => $f::<26>($($a),*),
            27 => $f::<27>($($a),*),
            28 => $f::<28>($($a),*),
            29 => $f::<29>($($a),*),
            30 => $f::<30>($($a),*),
            31 => $f::<31>($($a),*),
            32 => $f::<32>($($a),*),
            33 => $f::<33>($($a),*),
            _ => $f::<34>($($a),*),
        }
    };
}

/// The Hall basis of an alphabet, from its definition: letters, then all pairs
/// i < j with j a letter or left(j) <= i, by degree, then by (i, j).
pub struct HallModel {
    pub el: Vec<(u64, u64, u32)>,
    /// number of elements of degree at most d
    pub upto: Vec<u64>,
}
impl HallModel {
    fn new(n: u32, maxd: u32) -> HallModel {
        let mut el = vec![(0u64, 0u64, 0u32)];
        let mut upto = vec![0];
        for l in 1..=n as u64 {
            el.push((0, l, 1));
        }
        upto.push(n as u64);
        for d in 2..=maxd {
            let mut new = vec![];
            for i in 1..el.len() {
                let di = el[i].2;
                if di >= d {
                    break;
                }
                let dj = d - di;
                let (lo, hi) = (upto[dj as usize - 1] + 1, upto[dj as usize]);
                for j in lo..=hi {
                    if j > i as u64 && el[j as usize].0 <= i as u64 {
                        new.push((i as u64, j, d));
                    }
                }
            }
            el.extend(new);
            upto.push(el.len() as u64 - 1);
        }
        HallModel { el, upto }
    }
    pub fn info(&self, k: u64) -> Option<(u64, u64, u64, u32)> {
        self.el.get(k as usize).map(|&(l, r, d)| (k, l, r, d))
    }
}

static MODELS: OnceLock<Vec<HallModel>> = OnceLock::new();
pub fn init() {
    MODELS.get_or_init(|| (0..NW).map(|i| HallModel::new(WIDTHS[i], LASTD[i].max(MAXD[i] + 1))).collect());
}
fn model(w: usize) -> &'static HallModel {
    &MODELS.get().expect("init")[w]
}

/// necklace numbers, for degree ranges beyond the model
fn total_upto(n: u64, d: u32) -> u128 {
    fn mob(mut n: u32) -> i128 {
        let mut m = 1;
        let mut p = 2;
        while p * p <= n {
            if n % p == 0 {
                n /= p;
                m = -m;
                if n % p == 0 {
                    return 0;
                }
            }
            p += 1;
        }
        if n > 1 {
            m = -m;
        }
        m
    }
    let mut t: i128 = 0;
    for k in 1..=d {
        let mut s: i128 = 0;
        for q in 1..=k {
            if k % q == 0 {
                s += mob(q) * (n as i128).pow(k / q);
            }
        }
        t += s / k as i128;
    }
    t as u128
}

// args: width slot, number (degree, key or letter), handle slot, stall
pub fn gen(seed: u64, focus: &str, deep: bool) -> Plan {
    let mut r = Rng::new(seed);
    let mut p = Plan::new("hall", seed);
    // a crowd of callers now and then
    let crowd = r.chance(1, 40);
    let nt = if crowd { r.range(6, 18) } else { r.range(2, if deep { 5 } else { 4 }) } as usize;
    let nw = r.range(1, 3) as usize;
    let mut ws: Vec<i64> = vec![];
    for _ in 0..nw {
        // narrow alphabets more often: they have more degrees
        ws.push(r.pick(&[0i64, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]));
    }
    // two alphabets whose widths agree in the low byte
    if r.chance(1, 40) {
        ws = vec![0, 13];
    }
    // many alphabets at a time
    let many = r.chance(1, 20);
    if many {
        let mut pool: Vec<i64> = (0..NW as i64).collect();
        let n = r.range(4, NW as i64);
        ws = (0..n).map(|_| pool.swap_remove(r.below(pool.len() as u64) as usize)).collect();
    }
    // nobody keeps a handle it was given for longer than it likes
    let forget = r.chance(1, 3);
    let far = r.chance(1, 60);
    let long = !crowd && !many && !far && r.chance(1, 80);
    let scanner = if r.chance(1, 3) { r.below(nt as u64) as usize } else { usize::MAX };
    p.params = vec![(focus == "C04") as i64, forget as i64];
    p.plain = r.pick(&[0u32, 20, 60, 200, 1000]);
    p.atomic = r.pick(&[1u32, 2, 3, 6, 15, 0]);
    if p.plain == 0 && p.atomic == 0 {
        p.atomic = 4;
    }
    p.spurious = r.pick(&[0u32, 0, 2, 6]);
    p.sched_seed = r.next() >> 1;
    p.hash_seed = r.next() >> 1;
    for t in 0..nt {
        let n = if crowd {
            r.range(1, 4)
        } else if many {
            r.range(6, 40)
        } else if long {
            r.range(40, 150)
        } else {
            r.range(2, if deep { 14 } else { 8 })
        };
        let mut ops = vec![];
        for i in 0..n {
            let w = r.pick(&ws);
            let mut maxd = if far { MAXD[w as usize] } else { GEND[w as usize] } as i64;
            if many || long {
                maxd = maxd.min(3);
            }
            let k = if i == 0 && r.chance(3, 4) {
                GET
            } else if t == scanner {
                r.pick(&[SCAN, SCAN, SCAN, RANGE, STALL])
            } else if forget && r.chance(1, 8) {
                DROP
            } else if r.chance(1, 150) {
                HAMMER
            } else {
                r.pick(&[GET, GET, GROW, GROW, GROW, ISLETTER, KEYD, KEYD, LPAR, RPAR, RANGE, NAV, STALL, SCAN])
            };
            let x = match k {
                GET => {
                    if r.chance(1, 2) {
                        -1
                    } else {
                        let lo = r.chance(19, 20) as i64;
                        r.range(lo, maxd)
                    }
                }
                GROW if r.chance(1, 20) => 0,
                GROW => r.range(1, maxd),
                RANGE if r.chance(1, 30) => r.pick(&[64i64, 100, 1 << 16, u32::MAX as i64 - 1, u32::MAX as i64]),
                // no such element can exist
                KEYD | LPAR | RPAR | ISLETTER if r.chance(1, 16) => r.pick(&[1i64 << 32, 1 << 40, i64::MAX - 300]) + r.range(0, 260),
                SCAN => maxd,
                KEYD | LPAR | RPAR | HAMMER => {
                    // aim at the last elements of a degree, where growth shows
                    let d = r.range(1, maxd + 1) as usize;
                    let m = necklace_upto(w as usize, d);
                    let lo = (necklace_upto(w as usize, d - 1) + 1).min(m);
                    match r.below(4) {
                        0 => lo,
                        1 => m,
                        2 => (m - r.range(0, 2)).max(1),
                        _ => r.range(lo, m),
                    }
                }
                RANGE if r.chance(1, 8) => r.range(0, 40),
                RANGE => r.range(0, maxd + 1),
                STALL => r.pick(&[10i64, 1000, 100_000, 60_000_000]),
                _ => r.range(0, WIDTHS[w as usize] as i64 + 2),
            };
            let mut o = Op { k, a: vec![w, x, r.below(2) as i64, r.below(4) as i64], fault: None };
            if k == HAMMER {
                let n = r.pick(&[16i64, 32, 64, 128, 255, 256, 512, 1024]);
                o.a.push(n);
            }
            if focus == "C04" && matches!(k, KEYD | LPAR | RPAR | RANGE | NAV) && r.chance(1, 8) {
                o.fault = Some(Fault { kind: fk::ALLOC as u16, n: r.below(12) as u32 });
            }
            if focus == "C04" && (k == GROW || k == GET) && r.chance(1, 2) {
                o.fault = Some(Fault { kind: fk::ALLOC as u16, n: if r.chance(1, 2) { r.below(4) } else { r.below(24) } as u32 });
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    p
}

fn necklace_upto(w: usize, d: usize) -> i64 {
    total_upto(WIDTHS[w] as u64, d as u32) as i64
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    /// elements of this degree were seen or made
    Have,
    /// told that this degree is missing
    Miss,
    RangeHave,
    RangeMiss,
    Request,
    Other,
    /// visible failure
    Fail,
    /// the caller died here
    Death,
}

#[derive(Clone)]
struct Rec {
    t: usize,
    op: usize,
    w: usize,
    s: u64,
    e: u64,
    ev: Ev,
    deg: u32,
    k: u16,
    note: String,
}

type Hist = Arc<Mutex<Vec<Rec>>>;
type Handles = Arc<Mutex<Vec<(usize, HallSetObject)>>>;

enum Ans {
    Yes,
    Small,
    Fail(String),
}

fn ans<T>(r: Result<T, HallSetError>, ok: impl FnOnce(T)) -> Ans {
    match r {
        Ok(v) => {
            ok(v);
            Ans::Yes
        }
        Err(HallSetError::HallSetTooSmall) => Ans::Small,
        Err(e) => Ans::Fail(format!("{:?}", e)),
    }
}

fn request<const N: u32>(pre: Option<u32>) -> HallSetObject {
    get_hall_set::<N>(pre)
}
fn nav<const N: u32>(l: u32, left: bool) -> HallKey3 {
    let k = HallKey::<N>::from_letter(l);
    let p = if left { k.lparent() } else { k.parent() };
    simrt::host(|| HallKey3(format!("{:?}", p)))
}
struct HallKey3(String);

fn content(w: usize, what: &str, k: u64, got: (u64, u64, u64, u32), want: Option<(u64, u64, u64, u32)>) {
    let want = match want {
        Some(w) => w,
        None => {
            violation("content", &format!("alphabet of {} letters: {} of element {}, which cannot exist, is {:?}", WIDTHS[w], what, k, got));
            return;
        }
    };
    if got != want {
        violation(
            "content",
            &format!(
                "alphabet of {} letters: {} of element {} is (key {}, left {}, right {}, degree {}) instead of {:?}",
                WIDTHS[w],
                what,
                k,
                got.0,
                got.1,
                got.2,
                got.3,
                want
            ),
        );
    }
}

fn parent_of(w: usize, k: u64, left: bool) -> Option<(u64, u64, u64, u32)> {
    let m = model(w);
    let (_, l, r, _) = m.info(k)?;
    m.info(if left { l } else { r })
}

struct Caller {
    t: usize,
    hist: Hist,
    all: Handles,
    mine: Vec<Option<HallSetObject>>, // [width*2+slot]
    deaths: bool,
    forget: bool,
    /// armed for the next lookup
    fault: Option<(usize, u32)>,
}

impl Caller {
    fn handle(&mut self, w: usize, slot: usize, i: usize) -> Option<HallSetObject> {
        if self.mine[w * 2 + slot].is_none() {
            self.request(w, slot, None, None, i);
        }
        self.mine[w * 2 + slot].clone()
    }

    fn rec(&self, i: usize, w: usize, k: u16, s: u64, ev: Ev, deg: u32, note: String) {
        let e = sched::stamp();
        simrt::log(((ev as u64) << 32) ^ ((w as u64) << 16) ^ deg as u64);
        self.hist.lock().unwrap().push(Rec { t: self.t, op: i, w, s, e, ev, deg, k, note });
    }

    fn request(&mut self, w: usize, slot: usize, pre: Option<u32>, fault: Option<(usize, u32)>, i: usize) {
        let s = sched::stamp();
        let (o, fired) = sched::lib_op(fault, || by_width!(w, request, pre));
        if fired {
            fault_fired(fk::GROW_DIE);
        }
        match o {
            Outcome::Ok(h) => {
                if !self.forget {
                    self.all.lock().unwrap().push((w, h.clone()));
                }
                self.mine[w * 2 + slot] = Some(h);
                self.rec(i, w, GET, s, if pre.is_some() { Ev::Have } else { Ev::Request }, pre.unwrap_or(0), String::new());
            }
            Outcome::Injected => self.rec(i, w, GET, s, Ev::Death, 0, String::new()),
            Outcome::Panic(m) => {
                if fired {
                    self.rec(i, w, GET, s, Ev::Death, 0, m)
                } else {
                    self.rec(i, w, GET, s, Ev::Fail, 0, format!("panic: {}", m))
                }
            }
        }
    }

    fn lookup(&mut self, i: usize, w: usize, k: u16, deg: u32, range: bool, f: impl FnOnce() -> Ans) {
        let s = sched::stamp();
        let (o, fired) = sched::lib_op(self.fault.take(), f);
        match o {
            // whatever it had begun, the caller died in the middle of it
            Outcome::Ok(Ans::Fail(_)) | Outcome::Panic(_) | Outcome::Injected if fired => self.rec(i, w, k, s, Ev::Death, 0, String::new()),
            Outcome::Ok(Ans::Yes) => {
                probe(pr::PRESENT);
                let ev = match k {
                    RANGE => Ev::RangeHave,
                    ISLETTER => Ev::Other,
                    _ => Ev::Have,
                };
                self.rec(i, w, k, s, ev, deg, String::new())
            }
            Outcome::Ok(Ans::Small) => {
                probe(pr::ABSENT);
                fault_fired(fk::LOOKUP_FAIL);
                self.rec(i, w, k, s, if range { Ev::RangeMiss } else { Ev::Miss }, deg, String::new())
            }
            Outcome::Ok(Ans::Fail(m)) => self.rec(i, w, k, s, Ev::Fail, deg, m),
            Outcome::Panic(m) => self.rec(i, w, k, s, Ev::Fail, deg, format!("panic: {}", m)),
            Outcome::Injected => self.rec(i, w, k, s, Ev::Fail, deg, "?".into()),
        }
        let _ = self.deaths;
    }

    fn element(&mut self, i: usize, w: usize, kk: u16, k: u64, h: &HallSetObject) {
        let deg = model(w).info(k).map_or(u32::MAX, |e| e.3);
        self.lookup(i, w, kk, deg, false, || match kk {
            KEYD => ans(h.key_details(k), |g| content(w, "the description", k, g, model(w).info(k))),
            LPAR => ans(h.lparent_details(k), |g| content(w, "the left parent", k, g, parent_of(w, k, true))),
            _ => ans(h.rparent_details(k), |g| content(w, "the right parent", k, g, parent_of(w, k, false))),
        })
    }

    fn run(&mut self, i: usize, o: &Op) {
        let w = o.idx(0, NW);
        let x = o.arg(1).max(0);
        let slot = o.idx(2, 2);
        let fault = o.fault.as_ref().map(|f| (f.kind as usize, f.n));
        self.fault = if matches!(o.k, KEYD | LPAR | RPAR | RANGE | NAV) { fault } else { None };
        match o.k {
            GET => self.request(w, slot, if o.arg(1) < 0 { None } else { Some(x as u32) }, fault, i),
            STALL => sched::stall(x as u64),
            DROP => {
                let m: Vec<_> = if o.arg(3) & 1 == 1 {
                    self.mine.iter_mut().map(|h| h.take()).collect()
                } else {
                    vec![self.mine[w * 2].take(), self.mine[w * 2 + 1].take()]
                };
                let _ = sched::lib(move || drop(m));
            }
            GROW => {
                let mut h = match self.handle(w, slot, i) {
                    Some(h) => h,
                    None => return,
                };
                let s = sched::stamp();
                let (r, fired) = sched::lib_op(fault, || ans(h.grow_up(x as u32), |_| ()));
                if fired {
                    fault_fired(fk::GROW_DIE);
                }
                match r {
                    Outcome::Ok(Ans::Yes) => self.rec(i, w, GROW, s, Ev::Have, x as u32, String::new()),
                    Outcome::Ok(Ans::Small) if !fired => self.rec(i, w, GROW, s, Ev::Fail, x as u32, "HallSetTooSmall".into()),
                    Outcome::Ok(Ans::Fail(m)) if !fired => self.rec(i, w, GROW, s, Ev::Fail, x as u32, m),
                    Outcome::Panic(m) if !fired => self.rec(i, w, GROW, s, Ev::Fail, x as u32, format!("panic: {}", m)),
                    _ => self.rec(i, w, GROW, s, Ev::Death, 0, String::new()),
                }
            }
            NAV => {
                let l = 1 + (x as u32 % WIDTHS[w]);
                let left = o.arg(3) & 1 == 1;
                self.lookup(i, w, NAV, 1, false, || {
                    let t = by_width!(w, nav, l, left).0;
                    simrt::host(|| {
                        let (k, a, b, d) = parent_of(w, l as u64, left).unwrap();
                        let want = format!("HallKey(key={}, lparent={}, rparent={}, size={})", k, a, b, d);
                        if t != want {
                            violation(
                                "content",
                                &format!(
                                    "alphabet of {} letters: {} of letter {} is {} instead of {}",
                                    WIDTHS[w],
                                    if left { "left parent" } else { "parent" },
                                    l,
                                    t,
                                    want
                                ),
                            );
                        }
                    });
                    Ans::Yes
                });
            }
            _ => {
                let h = match self.handle(w, slot, i) {
                    Some(h) => h,
                    None => return,
                };
                let k = x as u64;
                match o.k {
                    SCAN => {
                        let down = o.arg(3) & 1 == 0;
                        let top = (x as u32).clamp(1, MAXD[w]);
                        for n in 0..top {
                            let d = if down { top - n } else { n + 1 };
                            let k = model(w).upto[d as usize];
                            let deg = model(w).info(k).unwrap().3;
                            let h = &h;
                            self.lookup(i, w, KEYD, deg, false, || ans(h.key_details(k), |g| content(w, "the description", k, g, model(w).info(k))));
                        }
                    }
                    ISLETTER => self.lookup(i, w, ISLETTER, 0, false, || {
                        ans(h.is_letter(k), |b| {
                            let want = k >= 1 && k <= WIDTHS[w] as u64;
                            if b != want {
                                violation("content", &format!("alphabet of {}: is_letter({}) answers {}", WIDTHS[w], k, b));
                            }
                        })
                    }),
                    RANGE => {
                        let d = x as u32;
                        self.lookup(i, w, RANGE, d, true, || {
                            ans(h.degree_range(d), |(a, b)| {
                                let n = WIDTHS[w] as u64;
                                if d > 60 {
                                    if n > 1 {
                                        violation("content", &format!("alphabet of {}: degree_range({}), more than there can be, is ({}, {})", n, d, a, b));
                                    }
                                    return;
                                }
                                let want = (total_upto(n, d), total_upto(n, d + 1));
                                if (a as u128, b as u128) != want {
                                    violation(
                                        "content",
                                        &format!("alphabet of {}: degree_range({}) is ({}, {}) instead of {:?}", n, d, a, b, want),
                                    );
                                }
                            })
                        })
                    }
                    HAMMER => {
                        let deg = model(w).info(k.max(1)).map_or(u32::MAX, |e| e.3);
                        let top = LASTD[w].min(GEND[w]);
                        let kk = [KEYD, LPAR, RPAR, KEYD][o.idx(3, 4)];
                        self.element(i, w, kk, k.max(1), &h);
                        let s = sched::stamp();
                        let mut g = h.clone();
                        let d = deg.min(top);
                        let n = o.arg(4).clamp(1, 2000);
                        let (r, _) = sched::lib_op(None, || {
                            for _ in 1..n {
                                if g.grow_up(d).is_err() {
                                    break;
                                }
                            }
                            ans(g.grow_up(d), |_| ())
                        });
                        match r {
                            Outcome::Ok(Ans::Yes) => self.rec(i, w, GROW, s, Ev::Have, d, String::new()),
                            Outcome::Ok(Ans::Small) => self.rec(i, w, GROW, s, Ev::Fail, d, "HallSetTooSmall".into()),
                            Outcome::Ok(Ans::Fail(m)) => self.rec(i, w, GROW, s, Ev::Fail, d, m),
                            Outcome::Panic(m) => self.rec(i, w, GROW, s, Ev::Fail, d, format!("panic: {}", m)),
                            Outcome::Injected => {}
                        }
                        self.element(i, w, kk, k.max(1), &h);
                    }
                    kk => self.element(i, w, kk, k.max(1), &h),
                }
            }
        }
    }
}

pub fn exec(p: &Plan) {
    init();
    let hist: Hist = Arc::new(Mutex::new(vec![]));
    let all: Handles = Arc::new(Mutex::new(vec![]));
    let deaths = p.p(0) != 0;
    let forget = p.p(1) != 0;
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in p.threads.iter().enumerate() {
        let ops = ops.clone();
        let (hist, all) = (hist.clone(), all.clone());
        bodies.push(Box::new(move || {
            let mut c = Caller { t, hist, all, mine: vec![None; 2 * NW], deaths, forget, fault: None };
            for (i, o) in ops.iter().enumerate() {
                sched::set_cur_op(i as i32);
                c.run(i, o);
                simrt::sh().ops_done += 1;
            }
            // handles are released under the scheduler, too
            let m = std::mem::take(&mut c.mine);
            let _ = sched::lib(move || drop(m));
        }));
    }
    sched::run_threads(crate::cfg(p), bodies);
    let h = hist.lock().unwrap().clone();
    check_history(&h, deaths);

    // everyone is gone; a last caller uses every handle ever handed out
    let dead: Vec<usize> = h.iter().filter(|r| r.ev == Ev::Death).map(|r| r.w).collect();
    let used: Vec<usize> = {
        let mut u: Vec<usize> = p.threads.iter().flatten().filter(|o| o.k != STALL && o.k != DROP).map(|o| o.idx(0, NW)).collect();
        u.sort();
        u.dedup();
        u
    };
    let handles: Vec<(usize, HallSetObject)> = std::mem::take(&mut *all.lock().unwrap());
    let mut c = crate::cfg(p);
    c.explicit = None;
    c.plain = 0;
    c.atomic = 0;
    sched::run_threads_more(
        c,
        vec![Box::new(move || {
            sched::set_cur_op(-2);
            for w in used {
                epilogue(w, &h, &handles, dead.contains(&w), deaths);
            }
        })],
    );
}

/// Growth recorded for this alphabet must show through every handle, and growth
/// made now through one must show through all others.
fn epilogue(w: usize, h: &[Rec], handles: &[(usize, HallSetObject)], dead: bool, deaths: bool) {
    let class = |c: &'static str| if deaths { "contain" } else { c };
    let g = h.iter().filter(|r| r.w == w && r.ev == Ev::Have).map(|r| r.deg).max().unwrap_or(1).max(1);
    let mine: Vec<&HallSetObject> = handles.iter().filter(|x| x.0 == w).map(|x| &x.1).collect();
    let m = model(w);
    let fresh = match sched::lib(|| by_width!(w, request, None)) {
        Outcome::Ok(h) => h,
        Outcome::Injected => return,
        Outcome::Panic(e) => {
            if !dead {
                violation(class("panic"), &format!("a request for the alphabet of {} letters panics: {}", WIDTHS[w], e));
            }
            return;
        }
    };
    let mut objs: Vec<HallSetObject> = mine.iter().map(|x| (*x).clone()).collect();
    objs.push(fresh);
    let look = |what: &str, k: u64, d: u32, objs: &[HallSetObject]| {
        for (n, o) in objs.iter().enumerate() {
            let r = sched::lib(|| ans(o.key_details(k), |g| content(w, "the description", k, g, m.info(k))));
            match r {
                Outcome::Ok(Ans::Yes) | Outcome::Injected => {}
                Outcome::Ok(Ans::Small) => violation(
                    "share",
                    &format!(
                        "alphabet of {} letters: degree {} {}, but handle {} of {} does not see element {}",
                        WIDTHS[w],
                        d,
                        what,
                        n,
                        objs.len(),
                        k
                    ),
                ),
                Outcome::Ok(Ans::Fail(e)) | Outcome::Panic(e) => {
                    if dead {
                        probe(pr::POISON_ERR);
                        return false;
                    }
                    violation(class("lin"), &format!("alphabet of {} letters: a lookup fails ({}) although no caller died", WIDTHS[w], e));
                    return false;
                }
            }
        }
        true
    };
    if !look("was grown earlier", m.upto[g as usize], g, &objs) {
        return;
    }
    // the grown part, thinned out where it is large
    let n = m.upto[g as usize];
    let step = 1 + n / 40;
    let any = &objs[objs.len() - 1];
    let mut k = 1 + h.len() as u64 % step;
    while k <= n {
        let all = sched::lib(|| {
            let a = ans(any.key_details(k), |x| content(w, "the description", k, x, m.info(k)));
            let b = ans(any.lparent_details(k), |x| content(w, "the left parent", k, x, parent_of(w, k, true)));
            let c = ans(any.rparent_details(k), |x| content(w, "the right parent", k, x, parent_of(w, k, false)));
            matches!((a, b, c), (Ans::Yes, Ans::Yes, Ans::Yes))
        });
        match all {
            Outcome::Ok(true) | Outcome::Injected => {}
            _ => {
                if !dead {
                    violation(
                        class("lin"),
                        &format!("alphabet of {} letters: element {} cannot be looked up although degree {} was grown and no caller died", WIDTHS[w], k, g),
                    );
                }
                return;
            }
        }
        k += step;
    }
    let d2 = (g + 1).min(LASTD[w]).max(g);
    let pick = (g as usize * 7 + objs.len()) % objs.len();
    let mut o = objs[pick].clone();
    match sched::lib(|| ans(o.grow_up(d2), |_| ())) {
        Outcome::Ok(Ans::Yes) => {
            look("was grown through one handle", m.upto[d2 as usize], d2, &objs);
        }
        Outcome::Injected => {}
        Outcome::Ok(Ans::Small) => violation(class("lin"), "growth answers: not sufficiently large"),
        Outcome::Ok(Ans::Fail(e)) | Outcome::Panic(e) => {
            if !dead {
                violation(class("lin"), &format!("alphabet of {} letters: growth fails ({}) although no caller died", WIDTHS[w], e));
            }
        }
    }
}

/// Is there an order of the completed calls of one alphabet, in keeping with real
/// time, in which each takes effect at one instant? The state is the degree
/// grown so far. Lookups can always be placed at the first instant their answer
/// is right, so only the order of growth has to be searched.
fn linearizable(ops: &[&Rec]) -> bool {
    let n = ops.len();
    if n > 120 {
        return true;
    }
    // before[i]: calls that returned before i started
    let before: Vec<u128> =
        (0..n).map(|i| (0..n).filter(|&j| ops[j].e < ops[i].s).fold(0, |a, j| a | 1u128 << j)).collect();
    let grows = |r: &Rec| matches!(r.k, GROW | GET) && r.ev == Ev::Have;
    let all = if n == 128 { !0 } else { (1u128 << n) - 1 };
    let mut seen = std::collections::BTreeSet::new();
    let mut stack = vec![(0u128, 1u32)];
    while let Some((mut done, g)) = stack.pop() {
        loop {
            let mut more = false;
            for i in 0..n {
                if done >> i & 1 == 1 || before[i] & !done != 0 {
                    continue;
                }
                let ok = match ops[i].ev {
                    Ev::Miss => ops[i].deg > g,
                    Ev::Have => ops[i].deg <= g,
                    _ => true,
                };
                if ok {
                    done |= 1 << i;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        if done == all {
            return true;
        }
        if !seen.insert(done) {
            continue;
        }
        for i in 0..n {
            if done >> i & 1 == 0 && before[i] & !done == 0 && grows(ops[i]) {
                stack.push((done | 1 << i, g.max(ops[i].deg)));
            }
        }
    }
    false
}

fn check_history(h: &[Rec], deaths: bool) {
    if !deaths {
        for w in 0..NW {
            let ops: Vec<&Rec> = h
                .iter()
                .filter(|r| r.w == w && matches!(r.ev, Ev::Have | Ev::Miss))
                .collect();
            if !linearizable(&ops) {
                let l: Vec<String> = ops
                    .iter()
                    .map(|r| {
                        let what = match (r.k, r.ev) {
                            (GROW | GET, _) => "grows to",
                            (_, Ev::Have) => "sees",
                            _ => "misses",
                        };
                        format!("caller {} [{}..{}] {} degree {}", r.t, r.s, r.e, what, r.deg)
                    })
                    .collect();
                violation(
                    "instant",
                    &format!("alphabet of {} letters: no order of growth calls explains what was seen: {}", WIDTHS[w], l.join("; ")),
                );
            }
        }
    }
    let names = ["a request", "growth", "is_letter", "key_details", "lparent_details", "rparent_details", "degree_range", "parent navigation", "stall", "scan"];
    for a in h {
        if a.ev == Ev::Fail {
            let excused = h.iter().any(|d| d.ev == Ev::Death && d.w == a.w && d.s <= a.e);
            if excused {
                probe(pr::POISON_ERR);
            } else {
                let class = if deaths {
                    "contain"
                } else if a.note.starts_with("panic") {
                    "panic"
                } else {
                    "lin"
                };
                violation(
                    class,
                    &format!(
                        "caller {} operation {}: {} for the alphabet of {} letters fails ({}) although no caller of that alphabet died",
                        a.t, a.op, names[a.k as usize], WIDTHS[a.w], a.note
                    ),
                );
            }
        }
        if h.iter().any(|d| d.ev == Ev::Death && d.w == a.w && d.s < a.s) {
            probe(pr::AFTER_DEATH);
        }
        for b in h {
            if a.w != b.w {
                continue;
            }
            // b told "missing" after a finished seeing or making it
            let bad = a.e < b.s
                && match (a.ev, b.ev) {
                    (Ev::Have, Ev::Miss) => b.deg <= a.deg.max(1),
                    (Ev::Request, Ev::Miss) => b.deg <= 1,
                    // a grown degree has its lower neighbour's range
                    (Ev::Have, Ev::RangeMiss) => b.deg < a.deg,
                    (Ev::RangeHave, Ev::RangeMiss) => b.deg <= a.deg,
                    _ => false,
                };
            if bad {
                violation(
                    "lin",
                    &format!(
                        "alphabet of {} letters: caller {} operation {} ({}) had degree {} at time {}, yet caller {} operation {} ({}) started at {} and was told degree {} is missing",
                        WIDTHS[a.w], a.t, a.op, names[a.k as usize], a.deg, a.e, b.t, b.op, names[b.k as usize], b.s, b.deg
                    ),
                );
            }
            // overlap statistics
            if a.s < b.s && b.s < a.e && a.t != b.t {
                match (a.k, b.k) {
                    (GET, GET) => probe(pr::COLD_RACE),
                    (GROW, GROW) => probe(pr::GROW_GROW),
                    (GROW, _) | (_, GROW) => probe(pr::GROW_RACE),
                    _ => {}
                }
            }
        }
    }
}
