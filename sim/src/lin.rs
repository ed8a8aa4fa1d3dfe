//! Explains a recorded history by the reference model: sequential parts with a
//! set of possible states, concurrent parts by searching for an order of the
//! calls that respects real-time precedence (linearizability).
use crate::model::{self, Cx, M, Why};
use crate::plan::*;
use std::collections::HashSet;

pub struct Opts {
    pub lenient: bool,
    /// give up on a concurrent part after this many explored nodes
    pub budget: usize,
    /// results that need no excuse: ops failing in the calls of a client are
    /// judged leniently
    pub max_states: usize,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts {
            lenient: false,
            budget: 60_000,
            max_states: 400,
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct LinStats {
    pub nodes: u64,
    pub gave_up: bool,
}

pub type Step<'a, S> = dyn Fn(&S, &OpRec, &Call) -> Result<Vec<S>, Why> + 'a;

fn seq<S: Clone + Eq + std::hash::Hash>(
    st: Vec<S>,
    calls: &[Call],
    ops: &std::collections::HashMap<u32, &OpRec>,
    f: &Step<S>,
    max: usize,
) -> Result<Option<Vec<S>>, Why> {
    let mut st = st;
    for c in calls {
        let op = ops[&c.id];
        let mut out: Vec<S> = Vec::new();
        let mut seen: HashSet<S> = HashSet::new();
        let mut why: Option<Why> = None;
        for m in &st {
            match f(m, op, c) {
                Ok(v) => {
                    for x in v {
                        if seen.insert(x.clone()) {
                            out.push(x);
                        }
                    }
                }
                Err(w) => {
                    if why.is_none() {
                        why = Some(w);
                    }
                }
            }
        }
        if out.is_empty() {
            let mut w = why.unwrap();
            w.detail = format!("op{} {}: {}", c.id, short(&op.op), w.detail);
            return Err(w);
        }
        if out.len() > max {
            return Ok(None);
        }
        st = out;
    }
    Ok(Some(st))
}

pub fn short(op: &Op) -> String {
    let s = format!("{:?}", op);
    if s.len() > 160 { format!("{}..", &s[..s.char_indices().take(160).last().unwrap().0]) } else { s }
}

struct Conc<'a, S> {
    calls: &'a [Call],
    ops: &'a std::collections::HashMap<u32, &'a OpRec>,
    f: &'a Step<'a, S>,
    seen: HashSet<(u64, S)>,
    finals: Vec<S>,
    fseen: HashSet<S>,
    nodes: usize,
    budget: usize,
    max: usize,
    best: u32,
    why: Option<Why>,
    full: u64,
}

impl<S: Clone + Eq + std::hash::Hash> Conc<'_, S> {
    fn go(&mut self, done: u64, m: &S) {
        if self.nodes >= self.budget {
            return;
        }
        if done & self.full == self.full {
            if self.fseen.insert(m.clone()) && self.finals.len() < self.max {
                self.finals.push(m.clone());
            }
            // calls that never returned may still have taken effect
        }
        // earliest return among those that are still to be placed
        let mut lim = usize::MAX;
        for (i, c) in self.calls.iter().enumerate() {
            if done & (1 << i) == 0 && c.res.is_some() {
                lim = lim.min(c.ret);
            }
        }
        for (i, c) in self.calls.iter().enumerate() {
            if done & (1 << i) != 0 || c.inv > lim {
                continue;
            }
            self.nodes += 1;
            let op = self.ops[&c.id];
            match (self.f)(m, op, c) {
                Ok(v) => {
                    for x in v {
                        let d = done | 1 << i;
                        if c.res.is_none() && x == *m {
                            continue;
                        }
                        if self.seen.insert((d, x.clone())) {
                            self.go(d, &x);
                        }
                    }
                }
                Err(w) => {
                    let n = done.count_ones();
                    if self.why.is_none() || n > self.best {
                        self.best = n;
                        self.why = Some(Why {
                            sig: w.sig,
                            detail: format!(
                                "op{} (client {}) {}: {}",
                                c.id,
                                c.c,
                                short(&op.op),
                                w.detail
                            ),
                        });
                    }
                }
            }
        }
    }
}

/// All states one incarnation may end in; an error when its history cannot be
/// explained.
pub fn explain<S: Clone + Eq + std::hash::Hash>(
    inc: &Inc,
    out: &IncOut,
    ops: &std::collections::HashMap<u32, &OpRec>,
    st: Vec<S>,
    f: &Step<S>,
    o: &Opts,
    stats: &mut LinStats,
) -> Result<Option<Vec<S>>, Why> {
    let calls = out.calls();
    let pre: HashSet<u32> = inc.pre.iter().map(|x| x.id).collect();
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    for x in calls {
        if x.c != 0 {
            b.push(x)
        } else if pre.contains(&x.id) {
            a.push(x)
        } else {
            c.push(x)
        }
    }
    let Some(mut st) = seq(st, &a, ops, f, o.max_states)? else {
        stats.gave_up = true;
        return Ok(None);
    };
    if !b.is_empty() {
        if b.len() > 60 {
            stats.gave_up = true;
            return Ok(None);
        }
        let mut full = 0u64;
        for (i, x) in b.iter().enumerate() {
            if x.res.is_some() {
                full |= 1 << i;
            }
        }
        let mut cc = Conc {
            calls: &b,
            ops,
            f,
            seen: HashSet::new(),
            finals: vec![],
            fseen: HashSet::new(),
            nodes: 0,
            budget: o.budget,
            max: o.max_states,
            best: 0,
            why: None,
            full,
        };
        for m in &st {
            if cc.seen.insert((0, m.clone())) {
                cc.go(0, m);
            }
        }
        stats.nodes += cc.nodes as u64;
        if cc.nodes >= cc.budget || cc.finals.len() >= cc.max {
            stats.gave_up = true;
            return Ok(None);
        }
        if cc.finals.is_empty() {
            let mut w = cc.why.unwrap_or(Why {
                sig: "unexplained".into(),
                detail: "no order of the calls explains their results".into(),
            });
            w.sig = format!("lin:{}", w.sig);
            return Err(w);
        }
        st = cc.finals;
    }
    let r = seq(st, &c, ops, f, o.max_states)?;
    stats.gave_up |= r.is_none();
    Ok(r)
}

/// Runs the token model over all incarnations of a plan.
pub fn check_model(
    plan: &Plan,
    out: &crate::child::RunOut,
    init: M,
    o: &Opts,
    stats: &mut LinStats,
) -> Result<(), Why> {
    let ops = plan.ops();
    let mut st = vec![init];
    for (k, io) in out.incs.iter().enumerate() {
        let inc = &plan.incs[k];
        let names = model::names(plan, io).map_err(|mut w| {
            // an object that was only half removed from an NSS token leaves
            // its handle to the next object with its id
            if w.sig == "handle-reused" && half_removed(plan, io, &w.detail) {
                w.sig = "nss-half-stored".into();
            }
            w.detail = format!("incarnation {k}: {}", w.detail);
            w
        })?;
        let f = |m: &M, op: &OpRec, c: &Call| -> Result<Vec<M>, Why> {
            let cx = Cx {
                names: &names,
                fault: c.fault,
                lenient: o.lenient,
            };
            model::step(m, &op.op, &c.vars, &c.res, &cx)
        };
        match explain(inc, io, &ops, st, &f, o, stats).map_err(|mut w| {
            w.detail = format!("incarnation {k}: {}", w.detail);
            w
        })? {
            Some(v) => st = v,
            None => return Ok(()),
        }
        if let Some(t) = st.iter().map(|m| m.taint).min().flatten() {
            return Err(Why {
                sig: t.to_string(),
                detail: format!("incarnation {k}: only explained by {t}"),
            });
        }
        let mut seen = HashSet::new();
        let mut nx = vec![];
        for mut m in st {
            m.crash();
            if seen.insert(m.clone()) {
                nx.push(m);
            }
        }
        st = nx;
    }
    Ok(())
}

/// the handle in question belonged to an object of an NSS token whose removal
/// failed half way
fn half_removed(plan: &Plan, io: &crate::plan::IncOut, detail: &str) -> bool {
    if !matches!(plan.image.trim_end_matches('0'), "nss" | "mix") {
        return false;
    }
    let ops = plan.ops();
    io.calls().iter().any(|c| {
        matches!(ops[&c.id].op, Op::Destroy { .. })
            && c.fault
            && c.res.as_ref().is_none_or(|r| r.rv != 0)
            && c.vars.get(1).is_some_and(|h| detail.starts_with(&format!("handle {h} ")))
    })
}
