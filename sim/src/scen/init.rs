//! P22: initialization and finalization.
use super::*;
use crate::model::{tbool, tlabel};
use kryoptic_lib::pkcs11::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct O {
    label: String,
    token: bool,
    private: bool,
    sess: u64,
    /// a logout came after the handle was given out
    stale: bool,
    /// made while nobody was logged in
    open: bool,
}

/// what the library must remember, and nothing else
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct S {
    up: bool,
    login: bool,
    /// open sessions; whether a digest is under way in them
    sess: BTreeMap<u64, bool>,
    objs: BTreeMap<u64, O>,
    disk: BTreeSet<(String, bool)>,
}

impl S {
    fn clear(&mut self) {
        self.up = false;
        self.login = false;
        self.sess.clear();
        self.objs.clear();
    }
    fn logout(&mut self) {
        self.login = false;
        self.objs.retain(|_, o| o.token || !o.private);
        for o in self.objs.values_mut() {
            o.stale |= o.private;
        }
    }
}

fn bad<T>(sig: &str, d: String) -> Result<T, Why> {
    Err(Why { sig: sig.into(), detail: d })
}

const NOTINIT: u64 = CKR_CRYPTOKI_NOT_INITIALIZED as u64;
const ALREADY: u64 = CKR_CRYPTOKI_ALREADY_INITIALIZED as u64;
const NOSESS: u64 = CKR_SESSION_HANDLE_INVALID as u64;

fn step(m: &S, op: &Op, c: &Call, fuzzy: bool) -> Result<Vec<S>, Why> {
    let one = |s: S| Ok(vec![s]);
    let same = || Ok(vec![m.clone()]);
    let Some(r) = &c.res else {
        return same();
    };
    if r.rv == SKIP || matches!(op, Op::Nop) {
        return same();
    }
    let rv = r.rv;
    match op {
        Op::Init { .. } => {
            let mut n = m.clone();
            return match rv {
                0 if m.up => bad("init-twice", "C_Initialize succeeded although the library was initialized".into()),
                0 => {
                    n.clear();
                    n.up = true;
                    one(n)
                }
                ALREADY if m.up => same(),
                ALREADY => bad("init-already", "C_Initialize found an initialized library where there is none".into()),
                _ if fuzzy || c.fault => same(),
                _ => bad("init-failed", format!("C_Initialize failed with 0x{rv:x} for no reason")),
            };
        }
        Op::Fini => {
            let mut n = m.clone();
            n.clear();
            return match rv {
                0 if m.up => one(n),
                0 => bad("fini-twice", "C_Finalize succeeded although the library was not initialized".into()),
                NOTINIT if !m.up => same(),
                _ if c.fault && m.up => one(n),
                _ => bad("fini-failed", format!("C_Finalize failed with 0x{rv:x}")),
            };
        }
        _ => {}
    }
    if !m.up {
        return match rv {
            NOTINIT => same(),
            _ => bad(
                "not-refused",
                format!("answered 0x{rv:x} although the library is not initialized"),
            ),
        };
    }
    if rv == NOTINIT {
        return bad("refused", "called not initialized while the library is initialized".into());
    }
    let mut n = m.clone();
    let sess = |h: u64| m.sess.contains_key(&h);
    let expect = |want: u64, n: S| -> Result<Vec<S>, Why> {
        if rv == want {
            return Ok(vec![n]);
        }
        if c.fault && rv != 0 {
            return Ok(vec![m.clone(), n]);
        }
        bad(
            if want == NOSESS { "old-session" } else if rv == NOSESS { "lost-session" } else { "state" },
            format!("returned 0x{rv:x} where 0x{want:x} is due"),
        )
    };
    match op {
        Op::Open { .. } => {
            if rv == 0 {
                if sess(r.h[0]) {
                    return bad("session-twice", format!("session handle {} is in use", r.h[0]));
                }
                n.sess.insert(r.h[0], false);
                return one(n);
            }
            return expect(0, m.clone());
        }
        Op::CloseAll { .. } => {
            n.sess.clear();
            n.objs.retain(|_, o| o.token);
            n.logout();
            return expect(0, n);
        }
        Op::TInfo { .. } => {
            if rv == 0 && (r.n[1], r.n[2]) != (m.sess.len() as u64, m.sess.len() as u64) {
                return bad(
                    "session-count",
                    format!("{} sessions counted, {} are open", r.n[1], m.sess.len()),
                );
            }
            return expect(0, n);
        }
        Op::SlotList => return expect(0, n),
        _ => {}
    }
    let h = c.vars.first().copied().unwrap_or(0);
    if !sess(h) {
        return expect(NOSESS, n);
    }
    match op {
        Op::Close { .. } => {
            n.sess.remove(&h);
            n.objs.retain(|_, o| o.token || o.sess != h);
            if n.sess.is_empty() {
                n.logout();
            }
            expect(0, n)
        }
        Op::SInfo { .. } => {
            let want = if m.login { CKS_RW_USER_FUNCTIONS } else { CKS_RW_PUBLIC_SESSION } as u64;
            if rv == 0 && r.n[1] != want {
                return bad("login-state", format!("session in state {} where it should be in {want}", r.n[1]));
            }
            expect(0, n)
        }
        Op::Login { .. } => {
            let was = m.login;
            n.login = true;
            expect(if was { CKR_USER_ALREADY_LOGGED_IN } else { CKR_OK } as u64, n)
        }
        Op::Logout { .. } => {
            let was = m.login;
            if was {
                n.logout();
            }
            expect(if was { CKR_OK } else { CKR_USER_NOT_LOGGED_IN } as u64, n)
        }
        Op::Create { t, .. } => {
            let o = O {
                label: tlabel(t).unwrap_or_default(),
                token: tbool(t, CKA_TOKEN) == Some(true),
                private: tbool(t, CKA_PRIVATE) == Some(true),
                sess: h,
                stale: false,
                open: false,
            };
            if o.token && !m.login {
                return expect(CKR_USER_NOT_LOGGED_IN as u64, n);
            }
            let mut o = o;
            if o.private && !m.login {
                // some may be made by anyone: those are no secret of a user
                o.open = true;
                if rv != 0 {
                    return same();
                }
            }
            if o.token {
                n.disk.insert((o.label.clone(), o.private));
            }
            if rv == 0 {
                if m.objs.contains_key(&r.h[0]) {
                    return bad("handle-twice", format!("object handle {} is in use", r.h[0]));
                }
                n.objs.insert(r.h[0], o);
            }
            expect(0, n)
        }
        Op::Get { .. } | Op::Destroy { .. } => {
            let k = c.vars.get(1).copied().unwrap_or(0);
            match m.objs.get(&k) {
                None => {
                    if rv == 0 {
                        bad("old-object", format!("handle {k} works, no object of this initialization has it"))
                    } else {
                        same()
                    }
                }
                Some(o) => {
                    if o.private && !m.login {
                        if rv == 0 && !o.open {
                            return bad("private", format!("private object {} reached while nobody is logged in", o.label));
                        }
                        if rv != 0 {
                            return same();
                        }
                    }
                    if rv != 0 && (o.stale || o.open || c.fault) {
                        return same();
                    }
                    if let Op::Destroy { .. } = op {
                        n.disk.remove(&(o.label.clone(), o.private));
                        n.objs.remove(&k);
                        return expect(0, n);
                    }
                    if let Some(l) = crate::model::lab(&r.a) {
                        if l != o.label {
                            return bad("wrong-object", format!("handle {k} gives {l}, it is {}", o.label));
                        }
                    }
                    expect(0, n)
                }
            }
        }
        Op::KInit { .. } => {
            let act = m.sess[&h];
            n.sess.insert(h, true);
            expect(if act { CKR_OPERATION_ACTIVE } else { CKR_OK } as u64, n)
        }
        Op::KUpd { .. } => {
            let act = m.sess[&h];
            expect(if act { CKR_OK } else { CKR_OPERATION_NOT_INITIALIZED } as u64, n)
        }
        Op::KFin { .. } => {
            let act = m.sess[&h];
            n.sess.insert(h, false);
            expect(if act { CKR_OK } else { CKR_OPERATION_NOT_INITIALIZED } as u64, n)
        }
        Op::Audit { .. } => {
            let seen: BTreeSet<String> = r.objs.iter().filter_map(|o| crate::model::lab(&o.2)).collect();
            let mut want: BTreeSet<String> = m.disk.iter().filter(|o| !o.1 || m.login).map(|o| o.0.clone()).collect();
            want.extend(m.objs.values().filter(|o| !o.token && (!o.private || m.login)).map(|o| o.label.clone()));
            if rv == 0 && seen != want {
                return bad("objects", format!("found {seen:?}, there should be {want:?}"));
            }
            for (k, _, a) in &r.objs {
                let Some(l) = crate::model::lab(a) else { continue };
                let token = m.disk.iter().find(|o| o.0 == l);
                if let Some(o) = token {
                    n.objs.insert(*k, O { label: l, token: true, private: o.1, sess: 0, stale: false, open: false });
                }
            }
            expect(0, n)
        }
        _ => expect(0, n),
    }
}

fn judge(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    let fuzzy = p.knobs.contains_key("badconf");
    let f = |m: &S, o: &OpRec, c: &Call| step(m, &o.op, c, fuzzy);
    let mut s = vec![S::default()];
    for (k, i) in out.incs.iter().enumerate() {
        let n = i.calls().iter().filter(|c| c.res.as_ref().is_some_and(|r| r.rv == 0) && matches!(ops[&c.id].op, Op::Init { .. })).count();
        st.nontrivial |= n > 1;
        match lin::explain(&p.incs[k], i, &ops, s, &f, &lin::Opts::default(), &mut st.lin) {
            Err(mut w) => {
                w.detail = format!("incarnation {k}: {}", w.detail);
                return vec![from_why(w)];
            }
            Ok(None) => return vec![],
            Ok(Some(v)) => {
                s = v;
                for m in s.iter_mut() {
                    m.clear();
                }
            }
        }
    }
    vec![]
}

fn gen_(g: &mut G, cl: u64, io: u64, badconf: bool) {
    g.p.image = "sq".into();
    if badconf {
        g.knob("badconf", 1);
    }
    let mut inc = Inc::default();
    let mut vs: Vec<V> = vec![];
    let mut vo: Vec<V> = vec![];
    let data = |g: &mut G, s: V, vo: &mut Vec<V>, token: bool, private: bool| {
        let o = g.v();
        vo.push(o);
        let l = g.label();
        let mut t = g.base(token, private, &l);
        t.push((CKA_CLASS, AV::U(CKO_DATA)));
        t.push((CKA_VALUE, xb(b"some value")));
        Op::Create { s, o, t }
    };
    if g.pct(70) {
        let login = g.pct(60);
        let (v, s) = g.start("sq", 1, login);
        inc.pre = v;
        vs.push(s);
        for _ in 0..g.r.below(3) {
            let (t, p) = (g.pct(50), g.pct(40) && login);
            let op = data(g, s, &mut vo, t, p);
            inc.pre.push(g.op(op));
        }
    }
    // number the variables first: clients refer to each other's
    let own: Vec<Vec<V>> = (0..cl).map(|_| (0..2).map(|_| g.v()).collect()).collect();
    vs.extend(own.iter().flatten());
    let mut inits = vec![];
    let mut all = vec![];
    for k in 0..cl as usize {
        let mut ops = vec![];
        for _ in 0..3 + g.r.below(if cl > 1 { 7 } else { 40 }) {
            let s = if g.pct(75) { *g.r.pick(&own[k]) } else { *g.r.pick(&vs) };
            let o = if vo.is_empty() { RAW + 146 } else { *g.r.pick(&vo) };
            let op = match g.r.below(22) {
                0..=3 => {
                    let conf = if badconf && g.pct(50) { "bad" } else { "sq" };
                    Op::Init { conf: conf.into() }
                }
                4..=6 => Op::Fini,
                7..=9 => {
                    let s = *g.r.pick(&own[k]);
                    Op::Open { slot: 1, rw: true, s }
                }
                10 => Op::Close { s },
                11 => Op::SInfo { s },
                12 | 13 => Op::Login { s, u: CKU_USER, pin: USER.into() },
                14 => Op::Logout { s },
                15 | 16 => {
                    let (t, p) = (g.pct(50), g.pct(40));
                    data(g, s, &mut vo, t, p)
                }
                17 => Op::Get { s, o, a: vec![CKA_LABEL, CKA_VALUE] },
                18 => match g.r.below(3) {
                    0 => Op::Destroy { s, o },
                    1 => Op::CloseAll { slot: 1 },
                    _ => Op::SlotList,
                },
                19 => Op::KInit { s, f: Fun::Dig, m: m(CKM_SHA256), o: 0 },
                20 => {
                    if g.pct(50) {
                        Op::KUpd { s, f: Fun::Dig, d: b"abc".as_slice().into(), b: Buf::Big }
                    } else {
                        Op::KFin { s, f: Fun::Dig, sig: Hx::default(), b: Buf::Big }
                    }
                }
                _ => match g.r.below(3) {
                    0 => Op::TInfo { slot: 1 },
                    1 => Op::Random { s, n: 8 },
                    _ => Op::SInfo { s },
                },
            };
            let init = matches!(op, Op::Init { .. } | Op::Fini);
            let op = g.op(op);
            if init {
                inits.push(op.id);
            }
            all.push(op.id);
            ops.push(op);
        }
        if cl > 1 {
            inc.clients.push(ops);
        } else {
            inc.pre.extend(ops);
        }
    }
    // and from now on all is well
    for op in [Op::Fini, Op::Fini, Op::SInfo { s: vs[0] }, Op::Init { conf: "sq".into() }, Op::SInfo { s: vs[0] }] {
        inc.post.push(g.op(op));
    }
    let s = g.v();
    for op in [
        Op::Open { slot: 1, rw: true, s },
        Op::SInfo { s },
        Op::Audit { s, t: vec![] },
        Op::Login { s, u: CKU_USER, pin: USER.into() },
        Op::Audit { s, t: vec![] },
        Op::Fini,
    ] {
        inc.post.push(g.op(op));
    }
    let n = if io > 0 && !inits.is_empty() { 1 + g.r.below(3) } else { 0 };
    for _ in 0..n {
        let l = if g.pct(85) { &inits } else { &all };
        let t = *g.r.pick(l);
        let mut f = g.io_fault(t, "");
        f.only = true;
        if g.pct(20) {
            f.io = Io::Rng;
            f.kind = FaultKind::RngFail;
        } else if g.pct(50) {
            f.io = *g.r.pick(&[Io::Open, Io::Read, Io::Lock, Io::Any]);
        }
        inc.faults.push(f);
    }
    inc.sched = g.sched(cl > 1);
    g.p.incs.push(inc);
}

pub fn p22() -> Vec<Scen> {
    vec![
        Scen { name: "sequential", weight: 2, gen_: |g| gen_(g, 1, 0, false), judge },
        Scen { name: "sequential+io", weight: 3, gen_: |g| gen_(g, 1, 1, false), judge },
        Scen { name: "concurrent", weight: 6, gen_: |g| { let n = 2 + g.r.below(3); gen_(g, n, 0, false) }, judge },
        Scen { name: "concurrent+io", weight: 4, gen_: |g| { let n = 2 + g.r.below(2); gen_(g, n, 1, false) }, judge },
        Scen { name: "bad-configuration", weight: 2, gen_: |g| { let n = 1 + g.r.below(3); gen_(g, n, 0, true) }, judge },
    ]
}
