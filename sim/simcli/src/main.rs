//! Supervisor: batches of simulated runs, minimisation, replay, evidence.
mod mini;
mod props;
mod run;

use props::Prop;
use simrt::rng::mix;
use simrt::shared::*;
use simrt::{sys, Plan, Rng};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

#[repr(C)]
struct Agg {
    runs: u64,
    ops: u64,
    steps: u64,
    switches: u64,
    accesses: u64,
    sim_us: u64,
    ignored: u64,
    rechecked: u64,
    diverged: u64,
    harness: u64,
    nontrivial: u64,
    faulty_runs: u64,
    faults: [u64; NFAULT],
    probes: [u64; NPROBE],
    probe_runs: [u64; NPROBE],
    bad_index: u64, // u64::MAX: none
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Rec {
    ident: u64,
    nontrivial: u64,
    log: u64,
}

fn seed_of(base: u64, p: &Prop, i: u64) -> u64 {
    let h = p.id.bytes().fold(17u64, |a, b| mix(a ^ b as u64));
    mix(mix(base.wrapping_mul(0x9E37_79B9).wrapping_add(h)) ^ i) >> 1
}

fn plan_of(base: u64, p: &Prop, i: u64, deep: bool) -> Plan {
    let s = seed_of(base, p, i);
    let mut r = Rng::new(s);
    let w = props::workload(p, &mut r);
    // a thorough batch mixes the quick sizes with deeper ones
    let d = deep && r.chance(2, 3);
    simwork::gen(w, r.next() >> 1, p.id, d)
}

fn text_hash(p: &Plan) -> u64 {
    p.to_text().bytes().fold(7u64, |a, b| mix(a ^ b as u64))
}

struct Batch {
    n: u64,
    workers: u64,
    deep: bool,
    base: u64,
    cap: Duration,
    recheck: u64,
}

fn accept_of(p: &Prop) -> String {
    p.accept.to_string()
}

struct Outcome {
    aggs: *mut Agg,
    recs: *mut Rec,
    lowest: Option<u64>,
    done: u64,
}

fn batch(p: &'static Prop, b: &Batch) -> Outcome {
    let aggs = sys::map_anon(std::mem::size_of::<Agg>() * b.workers as usize, true) as *mut Agg;
    let recs = sys::map_anon(std::mem::size_of::<Rec>() * b.n as usize, true) as *mut Rec;
    let min = sys::map_anon(4096, true) as *mut AtomicU64;
    unsafe { (*min).store(u64::MAX, SeqCst) };
    let start = Instant::now();
    let accept = accept_of(p);
    let mut pids = vec![];
    for w in 0..b.workers {
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe { sys::prctl(1, 9usize, 0usize, 0usize, 0usize) };
            let a = unsafe { &mut *aggs.add(w as usize) };
            a.bad_index = u64::MAX;
            let shp = new_shared();
            let mut i = w;
            while i < b.n {
                if start.elapsed() > b.cap || unsafe { (*min).load(SeqCst) } < i {
                    break;
                }
                let plan = plan_of(b.base, p, i, b.deep);
                let r = run::run(&plan, &accept, shp);
                let s = unsafe { &*shp };
                a.runs += 1;
                a.ops += s.ops_done;
                a.steps += s.steps;
                a.switches += s.switches;
                a.accesses += s.accesses;
                a.sim_us += s.sim_us;
                a.ignored += s.ignored as u64 + r.alone as u64;
                let mut nf = 0;
                for k in 0..NFAULT {
                    a.faults[k] += s.faults[k] as u64;
                    nf += s.faults[k];
                }
                for k in 0..NPROBE {
                    a.probes[k] += s.probes[k] as u64;
                    a.probe_runs[k] += (s.probes[k] > 0) as u64;
                }
                let nt = nf > 0 && s.ops_done >= 2;
                a.faulty_runs += (nf > 0) as u64;
                a.nontrivial += nt as u64;
                let ident = mix(text_hash(&plan) ^ mix(s.sig) ^ mix(s.log ^ 0x55));
                unsafe { *recs.add(i as usize) = Rec { ident, nontrivial: nt as u64, log: mix(s.log ^ s.sig ^ s.steps) } };
                if r.harness {
                    a.harness += 1;
                    if a.harness < 2 {
                        eprintln!("harness error in run {}: {:?}", i, r.bad);
                    }
                } else if r.bad.is_some() {
                    a.bad_index = i;
                    unsafe { (*min).fetch_min(i, SeqCst) };
                    break;
                } else if b.recheck > 0 && i % b.recheck == 0 {
                    let r2 = run::run(&plan, &accept, shp);
                    a.rechecked += 1;
                    if r2.bad.is_some() || (r2.log, r2.sig, r2.steps) != (r.log, r.sig, r.steps) {
                        a.diverged += 1;
                        eprintln!("run {} did not repeat exactly", i);
                    }
                }
                i += b.workers;
            }
            sys::exit_group(0);
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} }
        if st != 0 {
            eprintln!("a worker ended abnormally: {}", st);
            std::process::exit(2);
        }
    }
    let m = unsafe { (*min).load(SeqCst) };
    let done = (0..b.workers as usize).map(|w| unsafe { (*aggs.add(w)).runs }).sum();
    Outcome { aggs, recs, lowest: if m == u64::MAX { None } else { Some(m) }, done }
}

fn sum(o: &Outcome, w: u64, f: impl Fn(&Agg) -> u64) -> u64 {
    (0..w as usize).map(|i| unsafe { f(&*o.aggs.add(i)) }).sum()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn replay_text(p: &Prop, plan: &Plan, class: &str, msg: &str, r: &run::Res, from: &str) -> String {
    format!(
        "# {} violated: {}\n# {}\n# {}\nproperty {}\naccept {}\nexpect {} {} {}\n{}",
        p.id,
        class,
        msg.replace('\n', " "),
        from,
        p.id,
        p.accept,
        class,
        r.steps,
        r.log,
        plan.to_text()
    )
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let accept = field("accept ").unwrap_or_else(|| "*".into());
    let prop = field("property ").unwrap_or_default();
    let exp = field("expect ").unwrap_or_default();
    let plan = match Plan::from_text(&t) {
        Some(p) => p,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let shp = new_shared();
    let r = run::run(&plan, &accept, shp);
    match &r.bad {
        Some((c, m)) => {
            println!("{}: {}", c, m);
            let same = format!("{} {} {}", c, r.steps, r.log) == exp;
            println!("{}", if same { "reproduced exactly" } else { "reproduced with a different course" });
            println!("VIOLATION property={} replay={}", prop, path);
            if r.harness { 2 } else { 1 }
        }
        None => {
            println!("the replayed run holds");
            0
        }
    }
}

fn check(p: &'static Prop, tier: &str, opts: &[String]) -> i32 {
    let deep = tier == "thorough";
    let base = env_u64("VERIF_SEED", 1);
    let opt = |k: &str| opts.iter().position(|o| o == k).and_then(|i| opts.get(i + 1)).and_then(|v| v.parse::<u64>().ok());
    let n = opt("--runs").unwrap_or(if deep { p.thorough } else { p.quick });
    let workers = opt("--workers").unwrap_or(8);
    let b = Batch { n, workers, deep, base, cap: Duration::from_secs(opt("--seconds").unwrap_or(if deep { 7200 } else { 420 })), recheck: 50 };
    println!("{} {}: VERIF_SEED={} {} simulated runs on {} workers", p.id, tier, base, n, workers);
    let start = Instant::now();
    let o = batch(p, &b);
    let wall = start.elapsed().as_secs_f64();
    let harness = sum(&o, workers, |a| a.harness);
    let mut violations = 0;
    let mut code = 0;
    let mut finding = String::new();
    if let Some(i) = o.lowest {
        violations = 1;
        let plan = plan_of(base, p, i, deep);
        let shp = new_shared();
        let accept = accept_of(p);
        let r = run::run(&plan, &accept, shp);
        match r.bad {
            None => {
                eprintln!("run {} failed in the batch but holds when repeated", i);
                code = 2;
            }
            Some((class, msg)) => {
                let mut m = mini::Mini {
                    accept: accept.clone(),
                    sh: shp,
                    class: class.clone(),
                    tried: 0,
                    start: Instant::now(),
                    budget: Duration::from_secs(40),
                    max: 3000,
                };
                let small = m.shrink(&plan);
                let r2 = m.last(&small);
                let (plan, r, class, msg) = match r2.bad.clone() {
                    Some((c, mm)) => (small, r2, c, mm),
                    None => {
                        let r = m.last(&plan);
                        (plan, r, class, msg)
                    }
                };
                let dir = format!("{}/replays", verif_root());
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{}/{}-{}-{}.replay", dir, p.id, base, i);
                let from = format!(
                    "found by VERIF_SEED={} tier {} run {}; minimised with {} runs to {} operation(s)",
                    base,
                    tier,
                    i,
                    m.tried,
                    plan.nops()
                );
                if std::fs::write(&path, replay_text(p, &plan, &class, &msg, &r, &from)).is_err() {
                    eprintln!("cannot write {}", path);
                    return 2;
                }
                // a fresh process must fail the same way
                let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output();
                let text = again.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                println!("{}: {}", class, msg);
                println!("{}", from);
                println!("fresh-process replay: {}", text.lines().nth(1).unwrap_or("?"));
                println!("VIOLATION property={} replay={}", p.id, path);
                finding = format!("{}: {}", class, msg);
                code = 1;
            }
        }
    }
    if harness > 0 && code == 0 {
        code = 2;
    }
    // evidence
    let recs = unsafe { std::slice::from_raw_parts(o.recs, n as usize) };
    let distinct: HashSet<u64> = recs.iter().filter(|r| r.nontrivial == 1).map(|r| r.ident).collect();
    let mut faults = String::new();
    for (k, name) in FAULT_NAMES {
        let c = sum(&o, workers, |a| a.faults[*k]);
        if c > 0 {
            faults.push_str(&format!("{}{}: {}", if faults.is_empty() { "" } else { ", " }, js(name), c));
        }
    }
    let mut probes = String::new();
    for (k, name) in PROBE_NAMES {
        let (c, rr) = (sum(&o, workers, |a| a.probes[*k]), sum(&o, workers, |a| a.probe_runs[*k]));
        if c > 0 {
            probes.push_str(&format!(
                "{}{}: {{\"times\": {}, \"runs\": {}}}",
                if probes.is_empty() { "" } else { ", " },
                js(name),
                c,
                rr
            ));
        }
    }
    let mut samples = vec![];
    for i in [0u64, n / 2, n.saturating_sub(1)] {
        if i < n && recs[i as usize].ident != 0 {
            let t = plan_of(base, p, i, deep).to_text();
            let t: String = t.chars().take(1500).collect();
            samples.push(format!("{{\"run\": {}, \"plan\": {}}}", i, js(&t)));
        }
    }
    let per_hour = |x: u64| (x as f64 / wall.max(0.001) * 3600.0) as u64;
    let (stubs, real) = components(p);
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"operations\": {},\n  \"runs_per_hour\": {},\n  \"runs_with_a_fault\": {},\n  \"simulated_seconds\": {:.3},\n  \"scheduling_points\": {},\n  \"context_switches\": {},\n  \"checked_memory_accesses\": {},\n  \"runs_repeated_for_determinism\": {},\n  \"runs_that_did_not_repeat\": {},\n  \"faults_injected\": {{{}}},\n  \"conditions_reached\": {{{}}},\n  \"real_code\": {},\n  \"stubs\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}{}\n}}\n",
        js(p.id),
        js(if deep { "thorough" } else { "quick" }),
        base,
        o.done,
        distinct.len(),
        js("a run is one seeded plan (callers, operations, arguments, faults, schedule) executed in a fresh simulated process; non-trivial: at least two operations completed and at least one fault or preemption actually happened; distinct: different hash of plan, executed schedule and event log"),
        sum(&o, workers, |a| a.ops),
        per_hour(o.done),
        sum(&o, workers, |a| a.faulty_runs),
        sum(&o, workers, |a| a.sim_us) as f64 / 1e6,
        sum(&o, workers, |a| a.steps),
        sum(&o, workers, |a| a.switches),
        sum(&o, workers, |a| a.accesses),
        sum(&o, workers, |a| a.rechecked),
        sum(&o, workers, |a| a.diverged),
        faults,
        probes,
        js(real),
        js(stubs),
        samples.join(", "),
        js("the simulator interleaves at memory accesses under sequential consistency; weaker hardware memory orders are not simulated"),
        wall,
        violations,
        if finding.is_empty() { String::new() } else { format!(",\n \"finding\": {}", js(&finding)) }
    );
    if !opts.iter().any(|x| x == "--no-evidence") {
        let dir = format!("{}/evidence", verif_root());
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(format!("{}/{}.json", dir, p.id), ev).is_err() {
            eprintln!("cannot write the evidence file");
            return 2;
        }
    }
    println!(
        "{}: {} runs in {:.1} s, {} distinct non-trivial, {} repeated for determinism ({} differed), exit {}",
        p.id,
        o.done,
        wall,
        distinct.len(),
        sum(&o, workers, |a| a.rechecked),
        sum(&o, workers, |a| a.diverged),
        code
    );
    code
}

fn components(p: &Prop) -> (&'static str, &'static str) {
    match p.work[0].0 {
        "hall" => (
            "kernel futex, scheduler, clock, entropy and the heap are simulated; callers are generated",
            "all of the library's Lie basis code, lazy_static, std RwLock/Once/Arc/HashMap",
        ),
        _ => (
            "coefficients, bases, keys, streams and writers supplied by the simulated caller; heap, entropy, scheduler and clock are simulated",
            "all vector, algebra and tensor code of the library, its f32/f64 fields, std collections",
        ),
    }
}

/// The same runs on different worker counts must give the same event logs.
fn determinism(p: &'static Prop, n: u64) -> i32 {
    let mut logs: Vec<Vec<u64>> = vec![];
    for workers in [8u64, 3, 13, 1] {
        let b = Batch { n, workers, deep: false, base: env_u64("VERIF_SEED", 1), cap: Duration::from_secs(3600), recheck: 0 };
        let o = batch(p, &b);
        if o.lowest.is_some() {
            println!("{}: violation during the determinism test", p.id);
            return 1;
        }
        logs.push(unsafe { std::slice::from_raw_parts(o.recs, n as usize) }.iter().map(|r| mix(r.ident ^ r.log)).collect());
    }
    let d = (0..n as usize).filter(|&i| logs.iter().any(|l| l[i] != logs[0][i])).count();
    println!("{}: {} runs executed four times on 8, 3, 13 and 1 workers: {} differ", p.id, n, d);
    if d == 0 { 0 } else { 2 }
}

fn main() {
    simrt::alloc::reserve();
    std::panic::set_hook(Box::new(|_| {}));
    simwork::init();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> i32 {
        eprintln!("simcli check PROPERTY quick|thorough [--runs N] [--workers W] [--seconds S] | replay FILE | determinism PROPERTY N | show PROPERTY INDEX");
        2
    };
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match s(0) {
        "check" => match props::find(s(1)) {
            Some(p) => check(p, s(2), &a[2..]),
            None => usage(),
        },
        "replay" => replay(s(1)),
        "determinism" => match props::find(s(1)) {
            Some(p) => determinism(p, s(2).parse().unwrap_or(1000)),
            None => usage(),
        },
        "show" => match props::find(s(1)) {
            Some(p) => {
                let plan = plan_of(env_u64("VERIF_SEED", 1), p, s(2).parse().unwrap_or(0), s(3) == "thorough");
                print!("{}", plan.to_text());
                let shp = new_shared();
                println!("{:?}", run::run(&plan, p.accept, shp));
                0
            }
            None => usage(),
        },
        _ => usage(),
    };
    std::process::exit(code);
}
