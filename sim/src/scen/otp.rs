//! P23: counters of one-time-password keys.
use super::*;
use crate::hash::hotp;
use kryoptic_lib::pkcs11::*;

struct Key {
    label: String,
    val: Vec<u8>,
    c0: u64,
    digits: u32,
}

fn keys(p: &Plan) -> Vec<Key> {
    let mut v = vec![];
    for i in &p.incs {
        for o in &i.pre {
            if let Op::Create { t, .. } = &o.op {
                let g = |a| crate::model::tget(t, a);
                if let (Some(l), Some(val), Some(c)) = (crate::model::tlabel(t), g(CKA_VALUE), g(CKA_OTP_COUNTER)) {
                    v.push(Key {
                        label: l,
                        val,
                        c0: u64::from_be_bytes(c.try_into().unwrap()),
                        digits: 8,
                    });
                }
            }
        }
    }
    v
}

#[derive(Debug)]
struct Use {
    inc: usize,
    inv: usize,
    ret: usize,
    id: u32,
    key: usize,
    c: u64,
    issue: bool,
}

fn judge_otp(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let bad = |sig: &str, detail: String| vec![Viol { sig: sig.into(), detail }];
    let ks = keys(p);
    let ops = p.ops();
    let n = ops.len() as u64 * 5 + 10;
    // password -> who it belongs to
    let mut tab: std::collections::HashMap<String, Vec<(usize, u64)>> = Default::default();
    for (k, x) in ks.iter().enumerate() {
        for i in 0..n {
            if let Some(c) = x.c0.checked_add(i) {
                tab.entry(hotp(&x.val, c, x.digits)).or_default().push((k, c));
            }
        }
    }
    let mut obj: std::collections::HashMap<V, usize> = Default::default();
    for o in ops.values() {
        if let Op::Create { o, t, .. } = &o.op {
            if let Some(l) = crate::model::tlabel(t) {
                if let Some(k) = ks.iter().position(|x| x.label == l) {
                    obj.insert(*o, k);
                }
            }
        }
    }
    let mut uses: Vec<Use> = vec![];
    let mut gets: Vec<Use> = vec![];
    for (inc, i) in out.incs.iter().enumerate() {
        for c in i.calls() {
            let Some(r) = &c.res else { continue };
            let mut add = |l: &Vec<(usize, u64)>, issue: bool| {
                if let [(key, n)] = l[..] {
                    uses.push(Use { inc, inv: c.inv, ret: c.ret, id: c.id, key, c: n, issue });
                }
            };
            match &ops[&c.id].op {
                Op::Otp { .. } | Op::OtpEnd { .. } => {
                    if r.n.contains(&0xdead) {
                        return bad("short-buffer", format!("incarnation {inc}: op{} answered into a short buffer", c.id));
                    }
                    let Some(h) = &r.out else {
                        if r.rv == 0 {
                            return bad("no-password", format!("incarnation {inc}: op{} succeeded without a password", c.id));
                        }
                        continue;
                    };
                    let s = String::from_utf8_lossy(&h.0).to_string();
                    match tab.get(&s) {
                        None => return bad("wrong-password", format!("incarnation {inc}: op{} gave {s}, which no counter in reach gives", c.id)),
                        Some(l) => add(l, true),
                    }
                }
                Op::OtpVer { d, .. } | Op::OtpVerEnd { d, .. } if r.rv == 0 => {
                    let s = String::from_utf8_lossy(&d.0).to_string();
                    match tab.get(&s) {
                        None => return bad("wrong-accepted", format!("incarnation {inc}: op{} accepted {s}, which no counter in reach gives", c.id)),
                        Some(l) => add(l, false),
                    }
                }
                Op::Get { o, .. } if r.rv == 0 => {
                    let v = r.a.iter().find(|x| x.0 == CKA_OTP_COUNTER).and_then(|x| x.1.as_ref());
                    if let (Some(v), Some(k)) = (v.and_then(|h| <[u8; 8]>::try_from(h.0.as_slice()).ok()), obj.get(o)) {
                        gets.push(Use { inc, inv: c.inv, ret: c.ret, id: c.id, key: *k, c: u64::from_be_bytes(v), issue: false });
                    }
                }
                _ => {}
            }
        }
    }
    st.nontrivial = uses.len() > 1;
    let before = |a: &Use, b: &Use| (a.inc, a.ret) < (b.inc, b.inv);
    let what = |u: &Use| format!("op{} of incarnation {}", u.id, u.inc);
    for (i, a) in uses.iter().enumerate() {
        for b in &uses[i + 1..] {
            if a.key == b.key && a.c == b.c && a.issue == b.issue {
                let (s, w) = if a.issue { ("issued-twice", "issued") } else { ("accepted-twice", "accepted") };
                return bad(s, format!("{} and {} both {w} the password of counter {} of {}", what(a), what(b), a.c, ks[a.key].label));
            }
        }
    }
    for a in &uses {
        for b in &uses {
            if a.key == b.key && before(a, b) && b.c <= a.c {
                return bad(
                    "counter-back",
                    format!("{} used counter {} of {} after {} had used {}", what(b), b.c, ks[a.key].label, what(a), a.c),
                );
            }
        }
        for g in &gets {
            if a.key == g.key && before(a, g) && g.c <= a.c {
                return bad("counter-read", format!("{} read counter {} after {} had used {}", what(g), g.c, what(a), a.c));
            }
            if a.key == g.key && before(g, a) && a.c < g.c {
                return bad("counter-read", format!("{} used counter {} after {} had read {}", what(a), a.c, what(g), g.c));
            }
        }
    }
    for a in &gets {
        for b in &gets {
            if a.key == b.key && before(a, b) && b.c < a.c {
                return bad("counter-read", format!("{} read counter {} after {} had read {}", what(b), b.c, what(a), a.c));
            }
        }
    }
    if p.knobs.contains_key("exact") && out.incs.iter().all(|i| i.status == Status::Done && i.faults() == 0) {
        // one call at a time and nothing went wrong: all is determined
        let mut cur: Vec<u64> = ks.iter().map(|k| k.c0).collect();
        for (inc, i) in out.incs.iter().enumerate() {
            for c in i.calls() {
                let Some(r) = &c.res else { continue };
                let (o, d) = match &ops[&c.id].op {
                    Op::Otp { o, .. } => (o, None),
                    Op::OtpVer { o, d, .. } => (o, Some(d)),
                    _ => continue,
                };
                let Some(&k) = obj.get(o) else { continue };
                if r.rv == SKIP {
                    continue;
                }
                let at = |n: u64| cur[k].checked_add(n).map(|c| (c, hotp(&ks[k].val, c, ks[k].digits)));
                match d {
                    None if cur[k] == u64::MAX => {
                        if r.rv == 0 {
                            return bad("counter-end", format!("incarnation {inc}: op{} went past the last counter", c.id));
                        }
                    }
                    None => {
                        if r.rv != 0 || r.out.as_ref().map(|h| h.0.clone()) != Some(at(0).unwrap().1.into_bytes()) {
                            return bad("not-issued", format!("incarnation {inc}: op{} did not give the password of counter {}", c.id, cur[k]));
                        }
                        cur[k] += 1;
                    }
                    Some(d) => {
                        let hit = (0..5).filter_map(at).find(|x| x.1.as_bytes() == d.0.as_slice() && x.0 != u64::MAX);
                        match hit {
                            Some(_) if r.rv != 0 => {
                                return bad("not-accepted", format!("incarnation {inc}: op{} refused with 0x{:x} the password of a counter within reach of {}", c.id, r.rv, cur[k]));
                            }
                            None if r.rv == 0 => {
                                return bad("wrong-accepted", format!("incarnation {inc}: op{} accepted a password out of reach of counter {}", c.id, cur[k]));
                            }
                            Some(x) => cur[k] = x.0 + 1,
                            None => {}
                        }
                    }
                }
            }
        }
    }
    vec![]
}

fn otp_key(g: &mut G, s: V, token: bool) -> (OpRec, V, Vec<u8>, u64) {
    let o = g.v();
    let l = g.label();
    let private = g.pct(70);
    let mut t = g.base(token, private, &l);
    let n = if g.pct(50) { 20 } else { 32 };
    let v = g.r.bytes(n);
    let c0 = match g.r.below(6) {
        0 => u64::MAX - 1 - g.r.below(8),
        1 => u32::MAX as u64 - g.r.below(4),
        2 => 254,
        _ => 0,
    };
    t.push((CKA_CLASS, AV::U(CKO_OTP_KEY)));
    t.push((CKA_KEY_TYPE, AV::U(CKK_HOTP)));
    t.push((CKA_VALUE, xb(&v)));
    t.push((CKA_OTP_LENGTH, AV::U(8)));
    t.push((CKA_OTP_COUNTER, xb(&c0.to_be_bytes())));
    g.objs.push(GO { v: o, slot: 1, k: K::Gen, token, private, label: l, t: t.clone() });
    (g.op(Op::Create { s, o, t }), o, v, c0)
}

/// `cl` clients at most, chances of storage errors and crashes
fn otp(g: &mut G, cl: u64, io: u64, crash: u64) {
    g.p.image = "sq".into();
    g.p.lazy_unlink = g.pct(30);
    if cl == 1 {
        g.knob("exact", 1);
    }
    let mut ks: Vec<(V, Vec<u8>, u64)> = vec![];
    let ninc = 1 + g.r.below(3);
    let nkeys = 1 + g.r.below(2);
    for k in 0..ninc {
        let mut inc = Inc::default();
        let (mut pre, s) = g.start("sq", 1, true);
        if k == 0 {
            for _ in 0..nkeys {
                let token = ninc > 1 || g.pct(70);
                let (o, v, b, c) = otp_key(g, s, token);
                pre.push(o);
                ks.push((v, b, c));
            }
        } else {
            let l: Vec<GO> = g.objs.clone();
            for o in l {
                pre.push(g.locate(s, &o));
            }
        }
        let nc = if cl > 1 { 2 + g.r.below(cl - 1) } else { 1 };
        let mut targets = vec![];
        for _ in 0..nc {
            let cs = g.v();
            let rw = g.pct(80);
            pre.push(g.op(Op::Open { slot: 1, rw, s: cs }));
            let mut ops = vec![];
            let mut pend: Option<(bool, usize)> = None;
            for _ in 0..2 + g.r.below(if cl > 1 { 5 } else { 14 }) {
                let i = g.r.idx(ks.len());
                let (o, b, est) = ks[i].clone();
                let how = g.r.below(4) as u8;
                let pw = |g: &mut G, est: u64, b: &[u8]| {
                    let c = est.saturating_add(g.r.below(8)).saturating_sub(2);
                    let mut d = hotp(b, c, 8).into_bytes();
                    if g.pct(10) {
                        d[3] = b'0' + (d[3] - b'0' + 1) % 10;
                    }
                    Hx(d)
                };
                let op = match (g.r.below(10), &pend) {
                    (0..=2, Some((true, _))) if cl > 1 => {
                        pend = None;
                        Op::OtpEnd { s: cs, how }
                    }
                    (0..=2, Some((false, j))) if cl > 1 => {
                        let j = *j;
                        pend = None;
                        let d = pw(g, ks[j].2, &ks[j].1.clone());
                        Op::OtpVerEnd { s: cs, d, how: how & 1 }
                    }
                    (0..=2, None) if cl > 1 => {
                        let sign = g.pct(65);
                        pend = Some((sign, i));
                        let f = if sign { Fun::Sig } else { Fun::Ver };
                        Op::KInit { s: cs, f, m: Mech { m: CKM_HOTP, p: Par::None }, o }
                    }
                    (3, _) => Op::Get { s: cs, o, a: vec![CKA_LABEL, CKA_OTP_COUNTER] },
                    (4..=6, Some((false, _))) | (7.., Some((true, _))) => Op::SInfo { s: cs },
                    (4..=6, _) => {
                        ks[i].2 = est.saturating_add(1);
                        let d = pw(g, est, &b);
                        Op::OtpVer { s: cs, o, d, how: how & 1 }
                    }
                    _ => {
                        ks[i].2 = est.saturating_add(1);
                        Op::Otp { s: cs, o, how }
                    }
                };
                let op = g.op(op);
                targets.push(op.id);
                ops.push(op);
            }
            if cl > 1 {
                inc.clients.push(ops);
            } else {
                pre.extend(ops);
            }
        }
        for (o, ..) in ks.clone() {
            pre.push(g.op(Op::Nop));
            inc.post.push(g.op(Op::Get { s, o, a: vec![CKA_LABEL, CKA_OTP_COUNTER] }));
            inc.post.push(g.op(Op::Otp { s, o, how: 0 }));
        }
        inc.pre = pre;
        if g.pct(io) {
            let t = *g.r.pick(&targets);
            let f = g.io_fault(t, "");
            inc.faults.push(f);
        }
        if g.pct(crash) {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(cl > 1);
        g.p.incs.push(inc);
    }
}

pub fn p23() -> Vec<Scen> {
    vec![
        Scen { name: "sequential", weight: 2, gen_: |g| otp(g, 1, 0, 0), judge: judge_otp },
        Scen { name: "crash", weight: 3, gen_: |g| otp(g, 1, 30, 70), judge: judge_otp },
        Scen { name: "io", weight: 3, gen_: |g| otp(g, 1, 90, 10), judge: judge_otp },
        Scen { name: "concurrent", weight: 6, gen_: |g| otp(g, 4, 0, 0), judge: judge_otp },
        Scen { name: "concurrent+faults", weight: 2, gen_: |g| otp(g, 3, 50, 40), judge: judge_otp },
    ]
}
