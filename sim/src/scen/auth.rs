//! P26: keys that need a fresh PIN for every use.
use super::*;
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeMap;

const OK: u64 = 0;
const NOLOGIN: u64 = CKR_USER_NOT_LOGGED_IN as u64;
const SHORT: u64 = CKR_BUFFER_TOO_SMALL as u64;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Slot {
    need: bool,
    authed: bool,
    used: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct S {
    act: BTreeMap<(V, Fun), Slot>,
    /// operations that wait for a login, by session, latest last
    pend: BTreeMap<V, Vec<Fun>>,
    /// someone logged out: only safety counts from here on
    loose: bool,
}

impl S {
    fn end(&mut self, s: V, f: Fun) {
        self.act.remove(&(s, f));
        if let Some(p) = self.pend.get_mut(&s) {
            p.retain(|x| *x != f);
        }
    }
}

fn step(p: &Plan, st: &S, rec: &OpRec, c: &Call) -> Result<Vec<S>, Why> {
    let why = |sig: &str, d: String| Err(Why { sig: sig.into(), detail: d });
    let Some(r) = &c.res else { return Ok(vec![st.clone()]) };
    if r.rv == SKIP {
        return Ok(vec![st.clone()]);
    }
    let mut n = st.clone();
    let (s, f, end, query) = match &rec.op {
        Op::KInit { s, f, o, .. } => {
            if r.rv == OK {
                let need = p.knobs.get(&format!("auth{o}")).is_some();
                n.end(*s, *f);
                n.act.insert((*s, *f), Slot { need, authed: !need, used: false });
                if need {
                    n.pend.entry(*s).or_default().push(*f);
                }
            } else if !st.loose && !c.fault && !st.act.contains_key(&(*s, *f)) {
                return why("refused", format!("no operation could be started: 0x{:x}", r.rv));
            }
            return Ok(vec![n]);
        }
        Op::Cancel { s, flags } => {
            if r.rv == OK {
                for (f, b) in [(Fun::Sig, CKF_SIGN), (Fun::Dec, CKF_DECRYPT)] {
                    if flags & b != 0 {
                        n.end(*s, f);
                    }
                }
            }
            return Ok(vec![n]);
        }
        Op::Login { s, u: 2, pin } => {
            let waits = st.pend.get(s).map(|v| !v.is_empty()).unwrap_or(false);
            if r.rv == OK {
                if pin != USER {
                    return why("wrong-pin", "a wrong PIN was accepted".into());
                }
                if let Some(f) = n.pend.get_mut(s).and_then(|v| v.pop()) {
                    if let Some(a) = n.act.get_mut(&(*s, f)) {
                        a.authed = true;
                    }
                }
            } else if pin == USER && waits && !st.loose && !c.fault {
                return why("login", format!("the right PIN was refused while an operation waits for it: 0x{:x}", r.rv));
            }
            return Ok(vec![n]);
        }
        Op::Logout { .. } => {
            n.loose = true;
            if r.rv != OK {
                return Ok(vec![n]);
            }
            let mut e = n.clone();
            e.act.clear();
            e.pend.clear();
            return Ok(vec![n, e]);
        }
        Op::KOne { s, f, b, .. } => (*s, *f, true, *b == Buf::Query),
        Op::KOneB { s, f, b, .. } => (*s, *f, true, *b == Buf::Query),
        Op::KUpd { s, f, b, .. } => (*s, *f, false, *b == Buf::Query),
        Op::KFin { s, f, b, .. } => (*s, *f, true, *b == Buf::Query),
        _ => return Ok(vec![n]),
    };
    let a = st.act.get(&(s, f)).cloned();
    let Some(a) = a else {
        if r.rv == OK && end && !query {
            return why("unstarted", "an operation answered that is not active".into());
        }
        return Ok(vec![n]);
    };
    if query && r.rv == OK {
        return Ok(vec![n]);
    }
    if r.rv == OK {
        if a.need && !a.authed && (end || f == Fun::Dec) {
            return why("unauthenticated", "a key that needs a fresh PIN was used without".into());
        }
        if end {
            n.end(s, f);
        } else if let Some(x) = n.act.get_mut(&(s, f)) {
            x.used = true;
        }
        return Ok(vec![n]);
    }
    if r.rv == NOLOGIN {
        if a.authed && !st.loose && !c.fault {
            return why("refused", "an operation that was authenticated, or needs no PIN, was refused".into());
        }
        return Ok(vec![n]);
    }
    if r.rv == SHORT {
        return Ok(vec![n]);
    }
    if a.authed && !a.used && !st.loose && !c.fault && matches!(rec.op, Op::KOne { .. } | Op::KOneB { .. }) {
        return why("failed", format!("an authenticated use failed with 0x{:x}", r.rv));
    }
    let mut e = n.clone();
    e.end(s, f);
    Ok(vec![n, e])
}

fn judge(p: &Plan, out: &RunOut, js: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    let o = lin::Opts::default();
    for (i, x) in p.incs.iter().zip(&out.incs) {
        let f = |s: &S, r: &OpRec, c: &Call| step(p, s, r, c);
        if let Err(w) = lin::explain(i, x, &ops, vec![S::default()], &f, &o, &mut js.lin) {
            return vec![from_why(w)];
        }
        js.nontrivial |= x.calls().iter().any(|c| matches!(ops[&c.id].op, Op::Login { u: 2, .. }) && c.res.as_ref().map(|r| r.rv == OK).unwrap_or(false));
    }
    vec![]
}

struct Est {
    sig: Option<bool>,
    dec: Option<bool>,
}

fn auth(g: &mut G, ncl: u64, shared: bool, relogin: bool, faults: u64) {
    let conf = if g.pct(80) { "sq" } else { "nss" };
    g.p.image = conf.into();
    let (mut pre, s) = g.start(conf, 1, true);
    let k = g.r.idx(crate::keys::RSA.len());
    let token = g.pct(50);
    // the same key with and without, and copies
    let (au, plain, public) = (g.v(), g.v(), g.v());
    let mut t = ops::rsa_priv(k, token, "au");
    t.push((CKA_ALWAYS_AUTHENTICATE, AV::B(true)));
    pre.push(g.op(Op::Create { s, o: au, t }));
    g.knob(&format!("auth{au}"), 1);
    pre.push(g.op(Op::Create { s, o: plain, t: ops::rsa_priv(k, token, "plain") }));
    pre.push(g.op(Op::Create { s, o: public, t: ops::rsa_pub(k, "pub") }));
    let mut signers = vec![(au, true), (au, true), (plain, false)];
    let mut decs = vec![(au, true), (au, true), (plain, false)];
    if g.pct(40) {
        let o = g.v();
        let tok = g.pct(50);
        pre.push(g.op(Op::Copy { s, from: au, o, t: vec![(CKA_TOKEN, AV::B(tok)), (CKA_LABEL, x("copy"))] }));
        g.knob(&format!("auth{o}"), 1);
        signers.push((o, true));
        decs.push((o, true));
    }
    let ec = if g.pct(40) {
        let (o, o2) = (g.v(), g.v());
        let t = vec![(CKA_TOKEN, AV::B(false)), (CKA_EC_PARAMS, xb(P256)), (CKA_VERIFY, AV::B(true)), (CKA_PRIVATE, AV::B(false))];
        let t2 = vec![
            (CKA_TOKEN, AV::B(token)),
            (CKA_PRIVATE, AV::B(true)),
            (CKA_SIGN, AV::B(true)),
            (CKA_LABEL, x("ec")),
            (CKA_ALWAYS_AUTHENTICATE, AV::B(true)),
        ];
        pre.push(g.op(Op::GenPair { s, o, o2, m: m(CKM_EC_KEY_PAIR_GEN), t, t2 }));
        g.knob(&format!("auth{o2}"), 1);
        signers.push((o2, true));
        Some(o2)
    } else {
        None
    };
    let blob = g.v();
    let d = Hx(g.r.bytes(24));
    pre.push(g.op(Op::KInit { s, f: Fun::Enc, m: m(CKM_RSA_PKCS), o: public }));
    pre.push(g.op(Op::KSave { s, f: Fun::Enc, d: d.clone(), v: blob }));
    let nc = if ncl > 1 { 2 + g.r.below(ncl - 1) } else { 1 };
    let mut wrong = 5;
    let mut inc = Inc::default();
    let mut sess = vec![];
    let ns = if shared { 1 + g.r.below(2) } else { nc + g.r.below(2) };
    for _ in 0..ns {
        let v = g.v();
        let rw = g.pct(60);
        pre.push(g.op(Op::Open { slot: 1, rw, s: v }));
        sess.push(v);
    }
    let mut targets = vec![];
    for c in 0..nc {
        let mine: Vec<V> = if shared || nc == 1 { sess.clone() } else { vec![sess[c as usize]] };
        let mut est: BTreeMap<V, Est> = mine.iter().map(|v| (*v, Est { sig: None, dec: None })).collect();
        let mut v = vec![];
        let len = if nc == 1 { 6 + g.r.idx(30) } else { 3 + g.r.idx(11) };
        for _ in 0..len {
            let s = *g.r.pick(&mine);
            let e = est.get_mut(&s).unwrap();
            let op = match g.r.below(20) {
                0..=4 => {
                    let sig = if e.sig.is_none() && e.dec.is_none() { g.r.below(3) < 2 } else { e.sig.is_none() };
                    if sig {
                        let (o, need) = *g.r.pick(&signers);
                        let mm = if Some(o) == ec {
                            *g.r.pick(&[CKM_ECDSA, CKM_ECDSA_SHA256])
                        } else {
                            *g.r.pick(&[CKM_RSA_PKCS, CKM_SHA256_RSA_PKCS])
                        };
                        e.sig = Some(!need);
                        Op::KInit { s, f: Fun::Sig, m: m(mm), o }
                    } else {
                        let (o, need) = *g.r.pick(&decs);
                        e.dec = Some(!need);
                        Op::KInit { s, f: Fun::Dec, m: m(CKM_RSA_PKCS), o }
                    }
                }
                5..=9 => {
                    let bad = wrong > 0 && g.r.below(4) == 0;
                    let pin = if bad {
                        wrong -= 1;
                        g.r.pick(&["userpin-000", "userpin-00010", "sopin-0001", "x", ""]).to_string()
                    } else {
                        if e.sig == Some(false) {
                            e.sig = Some(true);
                        }
                        if e.dec == Some(false) {
                            e.dec = Some(true);
                        }
                        USER.to_string()
                    };
                    Op::Login { s, u: 2, pin }
                }
                10..=15 => {
                    let sig = match (e.sig, e.dec) {
                        (Some(_), None) => true,
                        (None, Some(_)) => false,
                        _ => g.r.below(2) == 0,
                    };
                    let b = match g.r.below(8) {
                        0 => Buf::Query,
                        1 => Buf::Len(g.r.below(40) as u32),
                        2 => Buf::Exact,
                        _ => Buf::Big,
                    };
                    if !matches!(b, Buf::Query | Buf::Len(_)) {
                        if sig && e.sig == Some(true) {
                            e.sig = None;
                        }
                        if !sig && e.dec == Some(true) {
                            e.dec = None;
                        }
                    }
                    if sig {
                        Op::KOne { s, f: Fun::Sig, d: d.clone(), sig: Hx::default(), b }
                    } else {
                        Op::KOneB { s, f: Fun::Dec, d: d.clone(), v: blob, flip: 0, b }
                    }
                }
                16 => Op::KUpd { s, f: Fun::Sig, d: d.clone(), b: Buf::Big },
                17 => Op::KFin { s, f: Fun::Sig, sig: Hx::default(), b: Buf::Big },
                18 => {
                    let sig = g.pct(60);
                    if sig {
                        e.sig = None;
                    } else {
                        e.dec = None;
                    }
                    Op::Cancel { s, flags: if sig { CKF_SIGN } else { CKF_DECRYPT } }
                }
                _ if relogin && c == 0 => {
                    v.push(g.op(Op::Logout { s }));
                    Op::Login { s, u: 1, pin: USER.into() }
                }
                _ => Op::SInfo { s },
            };
            let op = g.op(op);
            if matches!(op.op, Op::Login { .. } | Op::KInit { .. }) {
                targets.push(op.id);
            }
            v.push(op);
        }
        inc.clients.push(v);
    }
    inc.pre = pre;
    if g.pct(faults) && !targets.is_empty() {
        for _ in 0..1 + g.r.below(3) {
            let t = *g.r.pick(&targets);
            let mut f = g.io_fault(t, "");
            if g.pct(30) {
                f.io = Io::Rng;
                f.kind = FaultKind::RngFail;
            }
            f.only = true;
            inc.faults.push(f);
        }
    }
    inc.sched = g.sched(nc > 1);
    g.p.incs.push(inc);
}

pub fn p26() -> Vec<Scen> {
    vec![
        Scen { name: "one", weight: 4, gen_: |g| auth(g, 1, false, false, 0), judge },
        Scen { name: "relogin", weight: 2, gen_: |g| auth(g, 2, false, true, 0), judge },
        Scen { name: "sessions", weight: 3, gen_: |g| auth(g, 3, false, false, 0), judge },
        Scen { name: "shared", weight: 3, gen_: |g| auth(g, 3, true, false, 0), judge },
        Scen { name: "faults", weight: 2, gen_: |g| auth(g, 2, false, false, 100), judge },
    ]
}
