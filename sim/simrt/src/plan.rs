//! A simulated run, written out: operations per caller, faults, scheduling.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: u16,
    /// which opportunity of that kind inside the operation (0 = first)
    pub n: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: u16,
    pub a: Vec<i64>,
    pub fault: Option<Fault>,
}

impl Op {
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    /// argument as an index below n
    pub fn idx(&self, i: usize, n: usize) -> usize {
        self.arg(i).rem_euclid(n as i64) as usize
    }
    pub fn rest(&self, from: usize) -> &[i64] {
        if self.a.len() > from { &self.a[from..] } else { &[] }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub workload: String,
    pub seed: u64,
    pub params: Vec<i64>,
    pub threads: Vec<Vec<Op>>,
    /// scheduling: preempt at a plain access with probability 1/plain, at an
    /// atomic access with probability 1/atomic (0 = never)
    pub sched_seed: u64,
    pub plain: u32,
    pub atomic: u32,
    pub spurious: u32,
    pub hash_seed: u64,
    /// explicit schedule: (step, thread to run next); replaces the random one
    pub explicit: Option<Vec<(u64, u32)>>,
}

impl Plan {
    pub fn new(workload: &str, seed: u64) -> Plan {
        Plan {
            workload: workload.into(),
            seed,
            params: vec![],
            threads: vec![],
            sched_seed: 0,
            plain: 0,
            atomic: 0,
            spurious: 0,
            hash_seed: 0,
            explicit: None,
        }
    }
    pub fn p(&self, i: usize) -> i64 {
        self.params.get(i).copied().unwrap_or(0)
    }
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let join = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let _ = writeln!(s, "workload {}", self.workload);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "params {}", join(&self.params));
        let _ = writeln!(s, "sched {} {} {} {} {}", self.sched_seed, self.plain, self.atomic, self.spurious, self.hash_seed);
        for (i, t) in self.threads.iter().enumerate() {
            let _ = writeln!(s, "thread {}", i);
            for o in t {
                let f = match &o.fault {
                    Some(f) => format!(" fault {} {}", f.kind, f.n),
                    None => String::new(),
                };
                let _ = writeln!(s, "op {} {}{}", o.k, join(&o.a), f);
            }
        }
        if let Some(e) = &self.explicit {
            let _ = writeln!(s, "explicit");
            for (st, t) in e {
                let _ = writeln!(s, "switch {} {}", st, t);
            }
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Plan> {
        let mut p = Plan::new("", 0);
        for line in t.lines() {
            let line = line.split('#').next().unwrap_or("").trim();
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() {
                continue;
            }
            let nums = |x: &[&str]| -> Option<Vec<i64>> { x.iter().map(|v| v.parse().ok()).collect() };
            match w[0] {
                "workload" => p.workload = w.get(1)?.to_string(),
                "seed" => p.seed = w.get(1)?.parse().ok()?,
                "params" => p.params = nums(&w[1..])?,
                "sched" => {
                    p.sched_seed = w.get(1)?.parse().ok()?;
                    p.plain = w.get(2)?.parse().ok()?;
                    p.atomic = w.get(3)?.parse().ok()?;
                    p.spurious = w.get(4)?.parse().ok()?;
                    p.hash_seed = w.get(5)?.parse().ok()?;
                }
                "thread" => p.threads.push(vec![]),
                "op" => {
                    let k = w.get(1)?.parse().ok()?;
                    let (args, fault) = match w.iter().position(|x| *x == "fault") {
                        Some(i) => (
                            nums(&w[2..i])?,
                            Some(Fault { kind: w.get(i + 1)?.parse().ok()?, n: w.get(i + 2)?.parse().ok()? }),
                        ),
                        None => (nums(&w[2..])?, None),
                    };
                    p.threads.last_mut()?.push(Op { k, a: args, fault });
                }
                "explicit" => p.explicit = Some(vec![]),
                "switch" => p.explicit.as_mut()?.push((w.get(1)?.parse().ok()?, w.get(2)?.parse().ok()?)),
                _ => {}
            }
        }
        Some(p)
    }
}
