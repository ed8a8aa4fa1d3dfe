//! Shrinks a failing plan while the same violation persists.
use crate::child::{self, RunOut};
use crate::plan::*;
use crate::scen::{JStats, Scen, Viol};
use crate::simfs::Image;
use crate::seam::Wall;

pub struct Mini<'a> {
    pub scen: Scen,
    pub tmpl: &'a dyn Fn(&str) -> Image,
    pub until: Wall,
    pub tries: u64,
}

/// the part of the signature that must stay
fn class(s: &str) -> &str {
    s.strip_prefix("lin:").unwrap_or(s)
}

impl Mini<'_> {
    pub fn run(&mut self, p: &Plan) -> (RunOut, Vec<Viol>) {
        self.tries += 1;
        let out = child::run_plan(p, self.tmpl);
        let mut st = JStats::default();
        let v = self.scen.judged(p, &out, &mut st);
        (out, v)
    }
    fn hit(&mut self, p: &Plan, sig: &str) -> bool {
        let (_, v) = self.run(p);
        v.iter().any(|x| class(&x.sig) == class(sig))
    }
    fn time(&self) -> bool {
        Wall::now() < self.until
    }

    /// tries the plan as it is and, if it has concurrency that is not
    /// recorded, under some other schedules
    fn accept(&mut self, p: &mut Plan, sig: &str) -> bool {
        if self.hit(p, sig) {
            return true;
        }
        let conc: Vec<usize> = (0..p.incs.len())
            .filter(|i| p.incs[*i].clients.len() > 1 && p.incs[*i].sched.preempts.is_none())
            .collect();
        if conc.is_empty() {
            return false;
        }
        for t in 0..6u64 {
            if !self.time() {
                return false;
            }
            for i in &conc {
                p.incs[*i].sched.seed = crate::rng::mix(p.incs[*i].sched.seed, t + 1);
            }
            if self.hit(p, sig) {
                return true;
            }
        }
        false
    }

    fn lists(p: &mut Plan) -> Vec<&mut Vec<OpRec>> {
        let mut v = vec![];
        for i in p.incs.iter_mut() {
            v.push(&mut i.pre);
            for c in i.clients.iter_mut() {
                v.push(c);
            }
            v.push(&mut i.post);
        }
        v
    }

    pub fn shrink(&mut self, p0: &Plan, sig: &str) -> Plan {
        let mut p = p0.clone();
        let mut changed = true;
        let mut rounds = 0;
        while changed && self.time() && rounds < 6 {
            changed = false;
            rounds += 1;
            // later incarnations, then earlier ones
            while p.incs.len() > 1 && self.time() {
                let mut q = p.clone();
                q.incs.pop();
                if self.accept(&mut q, sig) {
                    p = q;
                    changed = true;
                } else {
                    break;
                }
            }
            let mut k = 0;
            while k + 1 < p.incs.len() && self.time() {
                let mut q = p.clone();
                q.incs.remove(k);
                if self.accept(&mut q, sig) {
                    p = q;
                    changed = true;
                } else {
                    k += 1;
                }
            }
            for k in 0..p.incs.len() {
                // clients
                let mut c = 0;
                while c < p.incs[k].clients.len() && self.time() {
                    let mut q = p.clone();
                    q.incs[k].clients.remove(c);
                    if self.accept(&mut q, sig) {
                        p = q;
                        changed = true;
                    } else {
                        c += 1;
                    }
                }
                // faults, tampering
                let mut f = 0;
                while f < p.incs[k].faults.len() && self.time() {
                    let mut q = p.clone();
                    q.incs[k].faults.remove(f);
                    if self.accept(&mut q, sig) {
                        p = q;
                        changed = true;
                    } else {
                        f += 1;
                    }
                }
                let mut f = 0;
                while f < p.incs[k].tamper.len() && self.time() {
                    let mut q = p.clone();
                    q.incs[k].tamper.remove(f);
                    if self.accept(&mut q, sig) {
                        p = q;
                        changed = true;
                    } else {
                        f += 1;
                    }
                }
                if p.incs[k].end_power {
                    let mut q = p.clone();
                    q.incs[k].end_power = false;
                    if self.accept(&mut q, sig) {
                        p = q;
                    }
                }
            }
            // operations, in chunks then one by one
            for l in 0..Self::lists(&mut p).len() {
                let mut size = (Self::lists(&mut p)[l].len() / 2).max(1);
                loop {
                    let mut i = Self::lists(&mut p)[l].len();
                    while i > 0 && self.time() {
                        let lo = i.saturating_sub(size);
                        let mut q = p.clone();
                        Self::lists(&mut q)[l].drain(lo..i);
                        if self.accept(&mut q, sig) {
                            p = q;
                            changed = true;
                        }
                        i = lo;
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
            }
            // simpler faults
            for k in 0..p.incs.len() {
                for f in 0..p.incs[k].faults.len() {
                    if p.incs[k].faults[f].count > 1 && self.time() {
                        let mut q = p.clone();
                        q.incs[k].faults[f].count = 1;
                        if self.accept(&mut q, sig) {
                            p = q;
                        }
                    }
                    if p.incs[k].faults[f].kind == FaultKind::Power && self.time() {
                        let mut q = p.clone();
                        q.incs[k].faults[f].kind = FaultKind::Kill;
                        if self.accept(&mut q, sig) {
                            p = q;
                        }
                    }
                }
            }
        }
        self.fix(p, sig)
    }

    /// records the schedule, then drops preemptions that are not needed
    fn fix(&mut self, p: Plan, sig: &str) -> Plan {
        let (out, _) = self.run(&p);
        let mut q = p.clone();
        for (k, i) in out.incs.iter().enumerate() {
            if q.incs[k].clients.is_empty() || i.meta.npreempt == 0 && i.meta.choices.is_empty() {
                continue;
            }
            q.incs[k].sched.preempts = Some(i.meta.pre.clone());
            q.incs[k].sched.choices = Some(i.meta.choices.clone());
        }
        if !self.hit(&q, sig) {
            return p;
        }
        for k in 0..q.incs.len() {
            if q.incs[k].sched.choices.as_ref().is_some_and(|c| c.iter().any(|x| *x != 0)) {
                let mut z = q.clone();
                z.incs[k].sched.choices = Some(vec![]);
                if self.hit(&z, sig) {
                    q = z;
                } else {
                    // zero from the end
                    let n = q.incs[k].sched.choices.as_ref().unwrap().len();
                    let mut size = (n / 2).max(1);
                    loop {
                        let mut i = n;
                        while i > 0 && self.time() {
                            let lo = i.saturating_sub(size);
                            let mut z = q.clone();
                            let c = z.incs[k].sched.choices.as_mut().unwrap();
                            let mut any = false;
                            for x in &mut c[lo..i] {
                                any |= *x != 0;
                                *x = 0;
                            }
                            if any && self.hit(&z, sig) {
                                q = z;
                            }
                            i = lo;
                        }
                        if size == 1 {
                            break;
                        }
                        size /= 2;
                    }
                    let c = q.incs[k].sched.choices.as_mut().unwrap();
                    while c.last() == Some(&0) {
                        c.pop();
                    }
                }
            }
            let mut i = q.incs[k].sched.preempts.as_ref().map(|x| x.len()).unwrap_or(0);
            while i > 0 && self.time() {
                i -= 1;
                let mut z = q.clone();
                let v = z.incs[k].sched.preempts.as_mut().unwrap();
                let g = v[i].0;
                v.remove(i);
                if i < v.len() {
                    v[i].0 += g;
                }
                if self.hit(&z, sig) {
                    q = z;
                }
            }
        }
        q
    }
}

pub fn minimise(
    scen: Scen,
    tmpl: &dyn Fn(&str) -> Image,
    p: &Plan,
    sig: &str,
    secs: u64,
) -> (Plan, u64) {
    let mut m = Mini {
        scen,
        tmpl,
        until: Wall::now().plus(secs),
        tries: 0,
    };
    let q = m.shrink(p, sig);
    (q, m.tries)
}
