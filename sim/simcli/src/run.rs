//! One simulated process per run: fork, execute the plan, classify the ending.
use simrt::shared::*;
use simrt::{sys, Plan};

#[derive(Clone, Debug, Default)]
pub struct Res {
    /// None: the run held
    pub bad: Option<(String, String)>,
    pub harness: bool,
    pub steps: u64,
    pub log: u64,
    pub sig: u64,
    /// an operation is wrong without any interference
    pub alone: bool,
}

extern "C" {
    fn alarm(s: u32) -> u32;
}

const CPU_S: u64 = 60;
const WALL_S: u32 = 100;

/// Execute the plan and judge it. A failure among several callers only counts
/// as interference if the same operation succeeds when its caller is alone.
pub fn run(p: &Plan, accept: &str, shp: *mut Shared) -> Res {
    let mut r = once(p, accept, shp);
    if p.workload != "share" || r.bad.is_none() || r.harness {
        return r;
    }
    let (vt, cur) = unsafe { ((*shp).vt as usize, (*shp).cur_op) };
    let class = r.bad.as_ref().unwrap().0.clone();
    if class == "interfere" && vt == 0 {
        return r; // a shared vector changed under everybody's feet
    }
    let side = new_shared();
    for t in 0..p.threads.len().min(MAXT) {
        if vt != 0 && t + 1 != vt {
            continue;
        }
        if let Some(o) = p.threads[t].get(cur[t].max(0) as usize) {
            let mut q = p.clone();
            q.threads = vec![vec![o.clone()]];
            q.explicit = None;
            if once(&q, accept, side).bad.is_some() {
                r.bad = None;
                r.alone = true;
            }
        }
    }
    sys::unmap(side as *mut u8, std::mem::size_of::<Shared>());
    r
}

/// Execute the plan in a fresh simulated process; `sh` receives what it reports.
/// An end that the machine may be to blame for (stopped for minutes, killed for
/// memory, no process left) is believed only the second time.
fn once(p: &Plan, accept: &str, shp: *mut Shared) -> Res {
    let (r, outside) = attempt(p, accept, shp);
    if !outside {
        return r;
    }
    std::thread::sleep(std::time::Duration::from_secs(1));
    attempt(p, accept, shp).0
}

fn attempt(p: &Plan, accept: &str, shp: *mut Shared) -> (Res, bool) {
    reset_shared(shp);
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        return (Res { harness: true, bad: Some(("harness".into(), "fork failed".into())), ..Default::default() }, true);
    }
    if pid == 0 {
        unsafe {
            let null = sys::open(b"/dev/null\0".as_ptr() as *const _, 2);
            sys::dup2(null, 2);
            sys::setrlimit(0, &[CPU_S, CPU_S + 1]);
            sys::setrlimit(4, &[0, 0]);
            sys::prctl(1, 9usize, 0usize, 0usize, 0usize); // die with the worker
            alarm(WALL_S);
            SH = shp;
            set_accept(accept);
            simrt::alloc::ON = true;
        }
        simwork::exec(p);
        simrt::sched::enter_host();
        let s = sh();
        if s.status == 0 {
            s.status = 1;
        }
        sys::exit_group(0)
    }
    let mut st = 0;
    unsafe {
        while sys::waitpid(pid, &mut st, 0) < 0 {}
    }
    let s = unsafe { &*shp };
    let mut r = Res { steps: s.steps, log: s.log, sig: s.sig, ..Default::default() };
    let code = if st & 0x7f == 0 { (st >> 8) & 0xff } else { -(st & 0x7f) };
    let op = |s: &Shared| {
        s.cur_op.iter().enumerate().filter(|(_, o)| **o != -1).map(|(t, o)| format!("caller {} in operation {}", t, o)).collect::<Vec<_>>().join(", ")
    };
    r.bad = match code {
        0 if s.status == 1 => None,
        10 if s.status == 2 => Some((s.class_str(), s.msg_str())),
        -24 | -14 | -9 => Some(("no-progress".into(), format!("a call does not return: the simulated process was stopped after {} s ({})", if code == -14 { WALL_S as u64 } else { CPU_S }, op(s)))),
        -11 | -7 | -6 | -4 | -5 | -8 => {
            let n = match code {
                -11 => "segmentation fault or stack overflow",
                -6 => "abort",
                -8 => "arithmetic trap",
                _ => "fatal signal",
            };
            Some(("crash".into(), format!("the library takes the process down: {} ({})", n, op(s))))
        }
        c => Some(("harness".into(), format!("unexpected end of the simulated process: {} status {}", c, s.status))),
    };
    if let Some((c, _)) = &r.bad {
        if c == "harness" {
            r.harness = true;
        }
    }
    (r, code == -14 || code == -9)
}
