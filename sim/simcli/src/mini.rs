//! Shrinks a failing plan while the same violation class persists.
use crate::run::{run, Res};
use simrt::shared::Shared;
use simrt::Plan;
use std::time::{Duration, Instant};

pub struct Mini {
    pub accept: String,
    pub sh: *mut Shared,
    pub class: String,
    pub tried: u64,
    pub start: Instant,
    pub budget: Duration,
    pub max: u64,
}

impl Mini {
    fn out(&self) -> bool {
        self.tried >= self.max || self.start.elapsed() > self.budget
    }
    fn fails(&mut self, p: &Plan) -> bool {
        self.tried += 1;
        matches!(run(p, &self.accept, self.sh).bad, Some((c, _)) if c == self.class)
    }
    /// For concurrent plans a change of operations shifts the schedule: try a few.
    fn fails_some(&mut self, p: &mut Plan) -> bool {
        if self.fails(p) {
            return true;
        }
        if p.threads.len() < 2 || p.explicit.is_some() {
            return false;
        }
        let keep = p.sched_seed;
        for k in 1..12u64 {
            if self.out() {
                break;
            }
            p.sched_seed = simrt::rng::mix(keep.wrapping_add(k)) >> 1;
            if self.fails(p) {
                return true;
            }
        }
        p.sched_seed = keep;
        false
    }

    pub fn shrink(&mut self, p0: &Plan) -> Plan {
        let mut p = p0.clone();
        // operations, in blocks, then one by one
        let mut changed = true;
        while changed && !self.out() {
            changed = false;
            for t in 0..p.threads.len() {
                let mut block = p.threads[t].len();
                while block >= 1 && !self.out() {
                    let mut i = 0;
                    while i < p.threads[t].len() && !self.out() {
                        let mut q = p.clone();
                        let end = (i + block).min(q.threads[t].len());
                        q.threads[t].drain(i..end);
                        if self.fails_some(&mut q) {
                            p = q;
                            changed = true;
                        } else {
                            i += block;
                        }
                    }
                    block /= 2;
                }
            }
            // faults
            for t in 0..p.threads.len() {
                for i in 0..p.threads[t].len() {
                    if self.out() {
                        break;
                    }
                    if p.threads[t][i].fault.is_some() {
                        let mut q = p.clone();
                        q.threads[t][i].fault = None;
                        if self.fails_some(&mut q) {
                            p = q;
                            changed = true;
                        }
                    }
                }
            }
        }
        // empty callers
        let mut t = 0;
        while t < p.threads.len() && p.threads.len() > 1 && !self.out() {
            if p.threads[t].is_empty() {
                let mut q = p.clone();
                q.threads.remove(t);
                if self.fails_some(&mut q) {
                    p = q;
                    continue;
                }
            }
            t += 1;
        }
        // arguments: shorter lists, smaller numbers
        for t in 0..p.threads.len() {
            for i in 0..p.threads[t].len() {
                let fixed = 6.min(p.threads[t][i].a.len());
                let mut cut = (p.threads[t][i].a.len() - fixed) / 2 * 2;
                while cut >= 1 && !self.out() {
                    let l = p.threads[t][i].a.len();
                    if l >= fixed + cut {
                        let mut q = p.clone();
                        q.threads[t][i].a.truncate(l - cut);
                        if self.fails_some(&mut q) {
                            p = q;
                            continue;
                        }
                    }
                    cut /= 2;
                }
                for j in 0..p.threads[t][i].a.len().min(24) {
                    for v in [0i64, 1] {
                        if self.out() {
                            break;
                        }
                        let old = p.threads[t][i].a[j];
                        if old == v || (old == 0 && v == 1) {
                            continue;
                        }
                        let mut q = p.clone();
                        q.threads[t][i].a[j] = v;
                        if self.fails_some(&mut q) {
                            p = q;
                            break;
                        }
                    }
                }
                while let Some(f) = p.threads[t][i].fault.clone() {
                    if f.n == 0 || self.out() {
                        break;
                    }
                    let mut q = p.clone();
                    q.threads[t][i].fault = Some(simrt::Fault { kind: f.kind, n: f.n / 2 });
                    if self.fails_some(&mut q) {
                        p = q;
                    } else {
                        break;
                    }
                }
            }
        }
        // the schedule, written out, then thinned
        if p.threads.len() > 1 && p.explicit.is_none() {
            let r = run(&p, &self.accept, self.sh);
            if matches!(&r.bad, Some((c, _)) if *c == self.class) {
                let s = unsafe { &*self.sh };
                let mut q = p.clone();
                q.explicit = Some(s.pre[..s.npre as usize].to_vec());
                if self.fails(&q) {
                    p = q;
                    let mut block = p.explicit.as_ref().unwrap().len();
                    while block >= 1 && !self.out() {
                        let mut i = 0;
                        while i < p.explicit.as_ref().unwrap().len() && !self.out() {
                            let mut q = p.clone();
                            let e = q.explicit.as_mut().unwrap();
                            let end = (i + block).min(e.len());
                            e.drain(i..end);
                            if self.fails(&q) {
                                p = q;
                            } else {
                                i += block;
                            }
                        }
                        block /= 2;
                    }
                }
            }
        }
        p
    }

    pub fn last(&mut self, p: &Plan) -> Res {
        run(p, &self.accept, self.sh)
    }
}
