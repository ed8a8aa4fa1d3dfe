//! What objects and keys permit, searches, handles, session objects, slots.
use super::conc::C::*;
use super::conc::*;
use super::*;
use kryoptic_lib::pkcs11::*;

// ------------------------------------------------------------------ P09

/// byte strings in the results of a run
fn outputs(out: &RunOut) -> Vec<(usize, u32, Vec<&Hx>)> {
    let mut v = vec![];
    for (k, i) in out.incs.iter().enumerate() {
        for e in &i.ev {
            if let Ev::Ret { id, r, .. } = e {
                let mut w: Vec<&Hx> = vec![];
                w.extend(r.out.iter());
                w.extend(r.a.iter().filter_map(|x| x.1.as_ref()));
                for o in &r.objs {
                    w.extend(o.2.iter().filter_map(|x| x.1.as_ref()));
                }
                v.push((k, *id, w));
            }
        }
    }
    v
}

/// values of keys that were out of reach from their creation on must not be
/// part of any result
fn judge_hidden(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    // who can wrap and unwrap may see the value of a key that is only sensitive
    let unwraps = p.ops().values().any(|o| matches!(o.op, Op::Unwrap { .. }));
    let mut hidden: Vec<(String, Vec<u8>)> = vec![];
    for o in p.ops().values() {
        if let Op::Create { t, .. } = &o.op {
            let b = |a| crate::model::tbool(t, a);
            if !unwraps && b(CKA_SENSITIVE) == Some(true) || b(CKA_EXTRACTABLE) == Some(false) {
                if let (Some(v), Some(l)) = (crate::model::tget(t, CKA_VALUE), crate::model::tlabel(t)) {
                    if v.len() >= 16 {
                        hidden.push((l, v));
                    }
                }
            }
        }
    }
    hidden.sort();
    for (k, id, w) in outputs(out) {
        for h in w {
            for (l, v) in &hidden {
                if v.windows(8).step_by(4).any(|x| crate::simfs::find(&h.0, x)) {
                    let op = &p.ops()[&id].op;
                    return vec![Viol {
                        sig: "hidden-value-returned".into(),
                        detail: format!("incarnation {k}: op{id} {op:?} returned the value of {l}, which is out of reach since its creation"),
                    }];
                }
            }
        }
    }
    judge_model(p, out, st)
}

const KEYS: CW = &[(Obj, 24), (Wrap, 8), (Derive, 8), (Use, 3), (Login, 1), (Logout, 1), (Close, 1), (OpenRw, 1)];
fn hide(g: &mut G) {
    g.hide = 65;
    g.evil = 25;
    g.rich = true;
    g.usage = g.r.chance(1, 3);
    if g.p.image == "nss" {
        g.usage = false;
        g.kinds = vec![K::Aes, K::Gen];
    } else {
        g.kinds = vec![K::Aes, K::Gen, K::Aes, K::Gen, K::Data];
    }
}
const WKEY: W = W { get: 8, set: 8, copy: 7, find: 4, ..WOBJ };

pub fn p09() -> Vec<Scen> {
    vec![
        super::dedup::secrets(),
        Scen {
            name: "sequential",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: KEYS, ow: WKEY, knobs: hide, pre: 8, post: 20, clients: 2, ops: 1, ..CC }),
            judge: judge_hidden,
        },
        Scen {
            name: "concurrent",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: KEYS, ow: WKEY, knobs: hide, pre: 8, post: 6, ops: 5, ..CC }),
            judge: judge_hidden,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: KEYS, ow: W { genpair: 0, ..WKEY }, knobs: hide, pre: 8, post: 12, ops: 4, ..CC }),
            judge: judge_hidden,
        },
    ]
}

// ------------------------------------------------------------------ P10

const HND: CW = &[(Obj, 30), (Login, 2), (Logout, 2), (OpenRw, 2), (Close, 3), (CloseAll, 1), (FindStep, 3), (Stale, 3), (SInfo, 1)];
const WHND: W = W { create: 8, destroy: 9, copy: 6, find: 6, get: 6, probe: 2, set: 3, size: 2, ..WOBJ };

pub fn p10() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 3,
            gen_: |g| concurrent(g, &Cc { w: HND, ow: WHND, pre: 10, post: 24, clients: 2, ops: 1, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 6,
            gen_: |g| concurrent(g, &Cc { w: HND, ow: WHND, pre: 6, post: 8, ops: 6, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: HND, ow: W { genpair: 0, ..WHND }, pre: 8, post: 12, ops: 4, ..CC }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P11

const SOBJ: CW = &[(Obj, 24), (OpenRw, 3), (OpenRo, 2), (Close, 7), (CloseAll, 1), (Login, 3), (Logout, 3), (FindStep, 1), (Derive, 2), (SInfo, 1)];
fn sess_keys(g: &mut G) {
    g.keep_session = true;
    g.evil = 8;
}
/// and nothing of them on the disk
fn judge_disk(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    for (k, i) in out.incs.iter().enumerate() {
        if let Some(l) = i.meta.leaks.first() {
            return vec![Viol { sig: "value-on-disk".into(), detail: format!("incarnation {k}: {l}") }];
        }
    }
    judge_model(p, out, st)
}

pub fn p11() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 3,
            gen_: |g| concurrent(g, &Cc { w: SOBJ, knobs: sess_keys, pre: 12, post: 20, clients: 2, ops: 1, token_pct: 25, shared: 20, ..CC }),
            judge: judge_disk,
        },
        Scen {
            name: "concurrent",
            weight: 6,
            gen_: |g| concurrent(g, &Cc { w: SOBJ, knobs: sess_keys, pre: 8, post: 8, ops: 6, token_pct: 25, shared: 20, ..CC }),
            judge: judge_disk,
        },
        Scen {
            name: "io",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { w: SOBJ, ow: W { genpair: 0, ..WOBJ }, knobs: sess_keys, pre: 8, post: 8, ops: 6, token_pct: 40, shared: 20, io: 100, ..CC }),
            judge: judge_disk,
        },
    ]
}

// ------------------------------------------------------------------ P20

const SRCH: CW = &[(Obj, 20), (FindStep, 12), (Login, 2), (Logout, 2)];
const WSRCH: W = W { create: 10, genkey: 3, genpair: 1, copy: 4, set: 5, destroy: 4, get: 0, find: 14, probe: 0, size: 0, audit: 0 };
fn rich(g: &mut G) {
    g.rich = true;
    g.hide = 50;
}

pub fn p20() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 4,
            gen_: |g| concurrent(g, &Cc { w: SRCH, ow: WSRCH, knobs: rich, pre: 14, post: 20, clients: 2, ops: 1, token_pct: 50, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: SRCH, ow: WSRCH, knobs: rich, pre: 12, post: 6, ops: 5, token_pct: 50, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "many",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { w: &[(Obj, 10), (FindStep, 5)], ow: W { create: 20, find: 12, ..WSRCH }, knobs: rich, pre: 60, post: 10, clients: 2, ops: 6, token_pct: 30, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: SRCH, ow: W { genpair: 0, ..WSRCH }, knobs: rich, pre: 12, post: 12, ops: 4, token_pct: 60, ..CC }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P27

const TWO: CW = &[
    (Obj, 24), (Cross, 8), (Login, 5), (LoginSo, 2), (LoginWrong, 2), (Logout, 5), (OpenRw, 3), (OpenRo, 2), (Close, 4), (CloseAll, 3), (SInfo, 4), (TInfo, 3), (InitToken, 1), (SetPin, 1),
];

pub fn p27() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 4,
            gen_: |g| concurrent(g, &Cc { conf: "two", slots: &[1, 2], w: TWO, pre: 10, post: 24, clients: 2, ops: 1, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { conf: "two", slots: &[1, 2], w: TWO, pre: 8, post: 8, ops: 6, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "io",
            weight: 2,
            gen_: |g| concurrent(g, &Cc {
                conf: "two", slots: &[1, 2], w: &[(Obj, 24), (Cross, 4), (Login, 3), (Logout, 3), (OpenRw, 2), (Close, 2), (SInfo, 2), (TInfo, 2)],
                ow: W { genpair: 0, ..WOBJ }, pre: 8, post: 12, ops: 5, io: 100, file: "2", ..CC
            }),
            judge: judge_model,
        },
        Scen {
            name: "mixed",
            weight: 2,
            gen_: |g| concurrent(g, &Cc {
                conf: "mix", slots: &[1, 2], w: &[(Obj, 24), (Cross, 8), (Login, 5), (Logout, 5), (OpenRw, 3), (Close, 4), (CloseAll, 2), (SInfo, 4), (TInfo, 2)],
                ow: W { genpair: 0, ..WOBJ }, knobs: |g| g.kinds = vec![K::Aes, K::Gen, K::Rsa], pre: 8, post: 16, ops: 5, ..CC
            }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P28

const USES: CW = &[(Obj, 12), (Use, 20), (Wrap, 6), (Derive, 5), (Login, 1), (Logout, 1)];
const WUSE: W = W { create: 8, genkey: 3, genpair: 2, copy: 3, set: 10, destroy: 1, get: 1, find: 0, probe: 5, size: 0, audit: 0 };
fn uses(g: &mut G) {
    g.usage = true;
    g.kinds = vec![K::Aes, K::Aes, K::Gen, K::Rsa];
}

pub fn p28() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: USES, ow: WUSE, knobs: uses, pre: 8, post: 28, clients: 2, ops: 1, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: USES, ow: WUSE, knobs: uses, pre: 8, post: 8, ops: 6, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: USES, ow: W { genpair: 0, ..WUSE }, knobs: uses, pre: 8, post: 14, ops: 4, ..CC }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P29

const FIX: CW = &[(Obj, 30), (Wrap, 2), (Derive, 2), (Login, 1), (Logout, 1), (Close, 1), (OpenRw, 1)];
const WFIX: W = W { create: 8, genkey: 3, genpair: 1, copy: 7, set: 12, destroy: 6, get: 4, find: 1, probe: 1, size: 0, audit: 0 };
fn fixed(g: &mut G) {
    g.fixed = *g.r.pick(&[10u64, 25, 40]);
    g.evil = *g.r.pick(&[0u64, 25, 50]);
}

pub fn p29() -> Vec<Scen> {
    vec![
        super::dedup::fixed(),
        Scen {
            name: "sequential",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: FIX, ow: WFIX, knobs: fixed, pre: 8, post: 28, clients: 2, ops: 1, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: FIX, ow: WFIX, knobs: fixed, pre: 8, post: 8, ops: 6, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "io",
            weight: 2,
            gen_: |g| concurrent(g, &Cc { w: FIX, ow: W { genpair: 0, ..WFIX }, knobs: fixed, pre: 8, post: 12, ops: 6, io: 100, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: FIX, ow: W { genpair: 0, ..WFIX }, knobs: fixed, pre: 8, post: 16, ops: 4, ..CC }),
            judge: judge_model,
        },
    ]
}
