//! PINs: lockout, changes, token initialization.
use super::conc::wrong;
use super::*;
use crate::sched::SchedSpec;
use kryoptic_lib::pkcs11::*;

const SO2: &str = "sopin-0002";
const NEWPINS: &[&str] = &["userpin-0002", "a quite long user PIN: 0123456789 0123456789", "pin4", USER];
const NEWSOS: &[&str] = &[SO2, "so-0003-so-0003-so-0003-so-0003-so-0003-so-0003-so-0003-so-0003-so-0003", SO];

/// login attempts, mostly wrong, on a token over several incarnations
fn lockout(g: &mut G, conf: &str, io: u64, crash: u64) {
    g.p.image = conf.into();
    let nss = conf == "nss";
    let so_focus = !nss && g.pct(30);
    let right = 4 + g.r.below(14);
    let ninc = 1 + g.r.below(4);
    for k in 0..ninc {
        let mut inc = Inc::default();
        let mut pre = vec![g.op(Op::Init { conf: conf.into() })];
        if !nss && g.pct(if so_focus { 60 } else { 10 }) {
            // no session is open yet: the SO PIN can be tried this way too
            for _ in 0..1 + g.r.below(4) {
                let pin = wrong(g, SO);
                pre.push(g.op(Op::InitToken { slot: 1, pin, label: "lost".into() }));
            }
        }
        let mut ss = vec![];
        for _ in 0..1 + g.r.below(3) {
            let v = g.v();
            pre.push(g.op(Op::Open { slot: 1, rw: true, s: v }));
            ss.push(v);
        }
        let mut targets = vec![];
        let mut one = |g: &mut G| -> OpRec {
            let s = *g.r.pick(&ss);
            let so = !nss && if so_focus { g.pct(85) } else { g.pct(12) };
            let (u, r) = if so { (CKU_SO, SO) } else { (CKU_USER, USER) };
            let o = if g.pct(right) {
                match g.r.below(5) {
                    0 if !nss => Op::SetPin { s, old: r.into(), new: r.into() },
                    _ => Op::Login { s, u, pin: r.into() },
                }
            } else {
                match g.r.below(12) {
                    0 => Op::TInfo { slot: 1 },
                    1 => Op::Logout { s },
                    2 | 3 => Op::SetPin { s, old: wrong(g, USER), new: "attacker-pin".into() },
                    4 if so => Op::InitPin { s, pin: USER.into() },
                    _ => {
                        let pin = wrong(g, r);
                        Op::Login { s, u, pin }
                    }
                }
            };
            let o = g.op(o);
            targets.push(o.id);
            o
        };
        let n = g.r.below(9);
        for _ in 0..n {
            let o = one(g);
            pre.push(o);
        }
        let conc = g.pct(45);
        if conc {
            for _ in 0..2 + g.r.below(2) {
                let n = 1 + g.r.below(4);
                let v = (0..n).map(|_| one(g)).collect();
                inc.clients.push(v);
            }
        }
        for _ in 0..g.r.below(6) {
            let o = one(g);
            inc.post.push(o);
        }
        inc.pre = pre;
        inc.post.push(g.op(Op::TInfo { slot: 1 }));
        if k + 1 == ninc {
            let s = ss[0];
            inc.post.push(g.op(Op::Logout { s }));
            inc.post.push(g.op(Op::Login { s, u: CKU_USER, pin: USER.into() }));
            inc.post.push(g.op(Op::Logout { s }));
            inc.post.push(g.op(Op::Login { s, u: CKU_SO, pin: SO.into() }));
            inc.post.push(g.op(Op::TInfo { slot: 1 }));
        }
        if g.pct(io) && !targets.is_empty() {
            for _ in 0..1 + g.r.below(2) {
                let t = *g.r.pick(&targets);
                let f = g.io_fault(t, "");
                inc.faults.push(f);
            }
        }
        if g.pct(crash) && !targets.is_empty() {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        }
        if g.pct(30) {
            inc.post.push(g.op(Op::Fini));
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(conc);
        g.p.incs.push(inc);
    }
}

/// the PIN asked for at every use of a key counts like that of a login
fn context(g: &mut G, io: u64, crash: u64) {
    let conf = if g.pct(80) { "sq" } else { "nss" };
    g.p.image = conf.into();
    let ninc = 1 + g.r.below(3);
    let right = 5 + g.r.below(30);
    for k in 0..ninc {
        let mut inc = Inc::default();
        let (mut pre, s) = g.start(conf, 1, false);
        let mut ss = vec![s];
        for _ in 0..g.r.below(3) {
            let v = g.v();
            pre.push(g.op(Op::Open { slot: 1, rw: true, s: v }));
            ss.push(v);
        }
        let mut targets = vec![];
        let mut inops = |g: &mut G, s: V, ops: &mut Vec<OpRec>| {
            // a key of the session: the next login may have to make another
            let l = g.login(s);
            targets.push(l.id);
            ops.push(l);
            let o = g.v();
            let label = g.label();
            let mut t = ops::rsa_priv(0, false, &label);
            t.push((CKA_ALWAYS_AUTHENTICATE, AV::B(true)));
            ops.push(g.op(Op::Create { s, o, t }));
            for _ in 0..1 + g.r.below(7) {
                let mut v = vec![];
                if g.pct(70) {
                    v.push(Op::KInit { s, f: Fun::Sig, m: m(CKM_RSA_PKCS), o });
                }
                let pin = if g.pct(right) { USER.to_string() } else { wrong(g, USER) };
                v.push(Op::Login { s, u: 2, pin });
                if g.pct(20) {
                    v.push(Op::SInfo { s });
                }
                if g.pct(10) {
                    v.push(Op::SetPin { s, old: wrong(g, USER), new: "attacker-pin".into() });
                }
                for x in v {
                    let x = g.op(x);
                    targets.push(x.id);
                    ops.push(x);
                }
            }
            if g.pct(60) {
                ops.push(g.op(Op::Logout { s }));
                for _ in 0..g.r.below(4) {
                    let pin = wrong(g, USER);
                    let x = g.op(Op::Login { s, u: CKU_USER, pin });
                    targets.push(x.id);
                    ops.push(x);
                }
            }
        };
        for _ in 0..1 + g.r.below(2) {
            let s = *g.r.pick(&ss);
            inops(g, s, &mut pre);
        }
        let conc = ss.len() > 1 && g.pct(40);
        if conc {
            for s in ss.iter().take(2) {
                let mut v = vec![];
                inops(g, *s, &mut v);
                v.truncate(7);
                inc.clients.push(v);
            }
        }
        inc.post.push(g.op(Op::TInfo { slot: 1 }));
        if k + 1 == ninc {
            inc.post.push(g.op(Op::Logout { s }));
            inc.post.push(g.op(Op::Login { s, u: CKU_USER, pin: USER.into() }));
            inc.post.push(g.op(Op::TInfo { slot: 1 }));
        }
        inc.pre = pre;
        if g.pct(io) {
            for _ in 0..1 + g.r.below(2) {
                let t = *g.r.pick(&targets);
                let f = g.io_fault(t, "");
                inc.faults.push(f);
            }
        }
        if g.pct(crash) {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(conc);
        g.p.incs.push(inc);
    }
}

pub fn p04() -> Vec<Scen> {
    vec![
        Scen { name: "context", weight: 3, gen_: |g| { let io = *g.r.pick(&[0, 50]); context(g, io, 25) }, judge: judge_model },
        Scen { name: "restarts", weight: 4, gen_: |g| lockout(g, "sq", 0, 30), judge: judge_model },
        Scen { name: "io", weight: 4, gen_: |g| lockout(g, "sq", 80, 20), judge: judge_model },
        Scen { name: "nss", weight: 1, gen_: |g| lockout(g, "nss", 40, 20), judge: judge_model },
        Scen { name: "nul", weight: 1, gen_: nul_pins, judge: judge_model },
    ]
}

/// PINs that differ from the right one by zero bytes at the end
fn nul_pins(g: &mut G) {
    let conf = if g.pct(50) { "sq" } else { "nss" };
    let (mut pre, s) = g.start(conf, 1, false);
    g.p.image = conf.into();
    for _ in 0..1 + g.r.below(4) {
        let pin = format!("{USER}{}", "\0".repeat(1 + g.r.idx(3)));
        pre.push(g.op(Op::Login { s, u: CKU_USER, pin }));
    }
    let l = g.login(s);
    pre.push(l);
    let mut inc = Inc { pre, ..Default::default() };
    inc.sched = g.sched(false);
    g.p.incs.push(inc);
}

/// PIN changes interrupted and retried, with private objects that must stay
pub fn change(g: &mut G, conf: &str, io: u64, crash: u64, conc: u64) {
    g.p.image = conf.into();
    g.private_pct = 80;
    g.token_pct = 100;
    let nss = conf == "nss";
    if nss {
        g.kinds = vec![K::Aes, K::Gen];
    }
    let mut user = USER.to_string();
    let mut so = SO.to_string();
    let mut olds: Vec<String> = vec![];
    let ninc = 2 + g.r.below(3);
    for k in 0..ninc {
        let mut inc = Inc::default();
        let mut pre = vec![g.op(Op::Init { conf: conf.into() })];
        let s = g.v();
        pre.push(g.op(Op::Open { slot: 1, rw: true, s }));
        // which of the PINs works is not known after a crash: try them
        let mut cand = vec![user.clone()];
        if let Some(o) = olds.last() {
            if *o != user {
                cand.push(o.clone());
            }
        }
        if g.pct(50) {
            cand.reverse();
        }
        for c in &cand {
            pre.push(g.op(Op::Login { s, u: CKU_USER, pin: c.clone() }));
        }
        let a = g.audit(s);
        pre.push(g.op(a));
        g.objs.retain(|o| o.token);
        if k == 0 {
            let w = W { genpair: 0, ..WCHANGE };
            for _ in 0..1 + g.r.below(4) {
                let o = g.objop(s, 1, &W { destroy: 0, ..w.clone() });
                pre.push(o);
            }
        } else {
            let old: Vec<GO> = g.objs.iter().take(4).cloned().collect();
            for o in old {
                pre.push(g.locate(s, &o));
                if g.pct(50) {
                    pre.push(g.op(Op::Probe { s, o: o.v }));
                }
            }
        }
        if k + 1 == ninc {
            if !nss {
                pre.push(g.op(Op::Logout { s }));
                pre.push(g.op(Op::Login { s, u: CKU_SO, pin: so.clone() }));
            }
            inc.pre = pre;
            inc.sched = SchedSpec { seed: g.r.next(), ..Default::default() };
            g.p.incs.push(inc);
            break;
        }
        let mut targets = vec![];
        let mut body = vec![];
        for _ in 0..1 + g.r.below(3) {
            match g.r.below(if nss { 4 } else { 10 }) {
                0..=3 => {
                    // by the user, logged in or not
                    if g.pct(40) {
                        body.push(g.op(Op::Logout { s }));
                    }
                    let new = if g.pct(85) {
                        g.r.pick(NEWPINS).to_string()
                    } else {
                        g.r.pick(&["", "x", "123"]).to_string()
                    };
                    let old = if g.pct(85) { user.clone() } else { wrong(g, &user) };
                    let good = old == user && new.len() >= 4;
                    let o = g.op(Op::SetPin { s, old, new: new.clone() });
                    targets.push(o.id);
                    body.push(o);
                    if good {
                        olds.push(user.clone());
                        user = new;
                    }
                }
                4..=6 => {
                    // by the SO
                    body.push(g.op(Op::Logout { s }));
                    body.push(g.op(Op::Login { s, u: CKU_SO, pin: so.clone() }));
                    let new = g.r.pick(NEWPINS).to_string();
                    let o = g.op(Op::InitPin { s, pin: new.clone() });
                    targets.push(o.id);
                    body.push(o);
                    olds.push(user.clone());
                    user = new;
                    body.push(g.op(Op::Logout { s }));
                }
                _ => {
                    body.push(g.op(Op::Logout { s }));
                    body.push(g.op(Op::Login { s, u: CKU_SO, pin: so.clone() }));
                    let new = g.r.pick(NEWSOS).to_string();
                    let o = g.op(Op::SetPin { s, old: so.clone(), new: new.clone() });
                    targets.push(o.id);
                    body.push(o);
                    so = new;
                    body.push(g.op(Op::Logout { s }));
                }
            }
            if g.pct(50) {
                body.push(g.op(Op::Login { s, u: CKU_USER, pin: user.clone() }));
                if g.pct(50) {
                    let a = g.audit(s);
                    body.push(g.op(a));
                }
                if g.pct(40) {
                    let o = g.objop(s, 1, &W { genpair: 0, ..WOBJ });
                    body.push(o);
                }
            }
        }
        let two = g.pct(conc);
        if two {
            // another client works with the token meanwhile
            let s2 = g.v();
            pre.push(g.op(Op::Open { slot: 1, rw: true, s: s2 }));
            let mut c2 = vec![];
            for _ in 0..2 + g.r.below(4) {
                let o = match g.r.below(5) {
                    0 => g.op(Op::Login { s: s2, u: CKU_USER, pin: user.clone() }),
                    1 => g.op(Op::Logout { s: s2 }),
                    2 => {
                        let new = g.r.pick(NEWPINS).to_string();
                        g.op(Op::SetPin { s: s2, old: user.clone(), new })
                    }
                    _ => g.objop(s2, 1, &W { genpair: 0, ..WOBJ.single() }),
                };
                c2.push(o);
            }
            let mut body = std::mem::take(&mut body);
            // what takes several calls would meet the other client's logouts
            body.retain(|o| !matches!(o.op, Op::Audit { .. } | Op::Find { .. } | Op::Probe { .. }));
            inc.clients.push(body);
            inc.clients.push(c2);
        } else {
            pre.append(&mut body);
        }
        inc.pre = pre;
        let tries = [user.clone(), olds.last().cloned().unwrap_or(user.clone())];
        for p in tries {
            inc.post.push(g.op(Op::Logout { s }));
            inc.post.push(g.op(Op::Login { s, u: CKU_USER, pin: p }));
        }
        let a = g.audit(s);
        inc.post.push(g.op(a));
        if g.pct(io) && !targets.is_empty() {
            for _ in 0..1 + g.r.below(2) {
                let t = *g.r.pick(&targets);
                let f = g.io_fault(t, "");
                inc.faults.push(f);
            }
        }
        if g.pct(crash) && !targets.is_empty() {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(two);
        g.p.incs.push(inc);
    }
}

pub fn p05() -> Vec<Scen> {
    vec![
        Scen { name: "crash", weight: 5, gen_: |g| change(g, "sq", 0, 80, 15), judge: judge_model },
        Scen { name: "io", weight: 5, gen_: |g| change(g, "sq", 85, 10, 15), judge: judge_model },
        Scen { name: "concurrent", weight: 2, gen_: |g| change(g, "sq", 0, 0, 100), judge: judge_model },
        Scen { name: "nss", weight: 1, gen_: |g| change(g, "nss", 40, 30, 10), judge: judge_model },
    ]
}

/// (re)initialization of a token, interrupted or not
pub fn init_token(g: &mut G, conf: &str, image: &str, io: u64, crash: u64) {
    g.p.image = image.into();
    g.token_pct = 90;
    let two = conf == "two";
    let mut so = if image.ends_with('0') { None } else { Some(SO.to_string()) };
    let mut lab = 0;
    let ninc = 2 + g.r.below(2);
    for k in 0..=ninc {
        let mut inc = Inc::default();
        let mut pre = vec![g.op(Op::Init { conf: conf.into() })];
        let mut targets = vec![];
        g.objs.retain(|o| o.token);
        if so.is_some() && g.pct(70) {
            let s = g.v();
            pre.push(g.op(Op::Open { slot: 1, rw: true, s }));
            pre.push(g.op(Op::Login { s, u: CKU_USER, pin: USER.into() }));
            let a = g.audit(s);
            pre.push(g.op(a));
            for _ in 0..g.r.below(4) {
                let o = g.objop(s, 1, &W { genpair: 0, destroy: 1, ..WCHANGE });
                pre.push(o);
            }
            if g.pct(95) {
                pre.push(g.op(Op::CloseAll { slot: 1 }));
            }
        }
        pre.push(g.op(Op::TInfo { slot: 1 }));
        if k < ninc {
            for _ in 0..1 + g.r.below(2) {
                lab += 1;
                let right = g.pct(80);
                let pin = match (&so, right) {
                    (Some(p), true) => p.clone(),
                    (Some(p), false) => {
                        let p = p.clone();
                        wrong(g, &p)
                    }
                    (None, _) => g.r.pick(NEWSOS).to_string(),
                };
                let o = g.op(Op::InitToken { slot: 1, pin: pin.clone(), label: format!("new label {lab}") });
                targets.push(o.id);
                pre.push(o);
                pre.push(g.op(Op::TInfo { slot: 1 }));
                if right || so.is_none() {
                    so = Some(pin);
                }
            }
        }
        // what is there now
        let s = g.v();
        pre.push(g.op(Op::Open { slot: 1, rw: true, s }));
        if g.pct(50) {
            pre.push(g.op(Op::Login { s, u: CKU_USER, pin: USER.into() }));
        }
        let a = g.audit(s);
        pre.push(g.op(a));
        pre.push(g.op(Op::Logout { s }));
        let p = so.clone().unwrap_or(SO.into());
        pre.push(g.op(Op::Login { s, u: CKU_SO, pin: p }));
        pre.push(g.op(Op::InitPin { s, pin: USER.into() }));
        pre.push(g.op(Op::Logout { s }));
        pre.push(g.op(Op::Login { s, u: CKU_USER, pin: USER.into() }));
        let a = g.audit(s);
        pre.push(g.op(a));
        let c = g.create(s, 1);
        pre.push(g.op(c));
        if two {
            let s2 = g.v();
            pre.push(g.op(Op::Open { slot: 2, rw: true, s: s2 }));
            let l = g.login(s2);
            pre.push(l);
            let a = g.audit(s2);
            pre.push(g.op(a));
            let c = g.create(s2, 2);
            pre.push(g.op(c));
        }
        inc.pre = pre;
        if g.pct(io) && !targets.is_empty() {
            let t = *g.r.pick(&targets);
            let mut f = g.io_fault(t, "");
            if g.pct(60) {
                f.nth = g.r.below(60) as u32;
            }
            inc.faults.push(f);
        }
        if g.pct(crash) && !targets.is_empty() {
            let t = *g.r.pick(&targets);
            let mut f = g.crash_fault(t);
            if g.pct(60) {
                f.nth = g.r.below(90) as u32;
            }
            inc.faults.push(f);
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(false);
        g.p.incs.push(inc);
    }
}

pub fn p06() -> Vec<Scen> {
    vec![
        Scen { name: "plain", weight: 3, gen_: |g| init_token(g, "sq", "sq", 0, 0), judge: judge_model },
        Scen { name: "fresh", weight: 2, gen_: |g| init_token(g, "sq", "sq0", 20, 40), judge: judge_model },
        Scen { name: "crash", weight: 4, gen_: |g| init_token(g, "sq", "sq", 0, 80), judge: judge_model },
        Scen { name: "io", weight: 4, gen_: |g| init_token(g, "sq", "sq", 90, 0), judge: judge_model },
        Scen { name: "two", weight: 1, gen_: |g| init_token(g, "two", "two", 40, 30), judge: judge_model },
    ]
}
