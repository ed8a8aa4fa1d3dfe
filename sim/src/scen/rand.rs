//! P25: fresh random values, and random sources that fail.
use super::*;
use crate::sched::SchedSpec;
use kryoptic_lib::pkcs11::*;
use std::collections::HashMap;

const WIN: usize = 8;
const SHORT: usize = 6;

/// what was drawn so far: who got each run of WIN bytes
#[derive(Default)]
struct Drawn {
    m: HashMap<[u8; WIN], (String, usize)>,
    s: HashMap<[u8; SHORT], (String, usize)>,
}
impl Drawn {
    /// `who` may show the same value again (a key that is read twice)
    fn add(&mut self, who: &str, v: &[u8]) -> Option<Viol> {
        let mut same = 1;
        for i in 1..v.len() {
            same = if v[i] == v[i - 1] { same + 1 } else { 1 };
            if same >= WIN {
                return Some(Viol { sig: "constant".into(), detail: format!("{who}: {same} equal bytes at {}", i + 1 - same) });
            }
        }
        // short ones are too few to look alike by chance
        if v.len() <= 64 {
            for (i, w) in v.windows(SHORT).enumerate() {
                let w: [u8; SHORT] = w.try_into().unwrap();
                match self.s.get(&w) {
                    Some((o, at)) if o != who || *at != i => {
                        return Some(Viol { sig: "repeated".into(), detail: format!("{who} at {i} has the bytes {o} has at {at}") });
                    }
                    _ => {
                        self.s.insert(w, (who.into(), i));
                    }
                }
            }
        }
        for (i, w) in v.windows(WIN).enumerate() {
            let w: [u8; WIN] = w.try_into().unwrap();
            match self.m.get(&w) {
                Some((o, at)) if o != who || *at != i => {
                    return Some(Viol { sig: "repeated".into(), detail: format!("{who} at {i} has the bytes {o} has at {at}") });
                }
                _ => {
                    self.m.insert(w, (who.into(), i));
                }
            }
        }
        None
    }
}

/// whether a call that lost the random source has to fail
fn needs_random(op: &Op) -> bool {
    matches!(
        op,
        Op::Random { .. }
            | Op::GenKey { .. }
            | Op::GenPair { .. }
            | Op::SetPin { .. }
            | Op::InitPin { .. }
            | Op::InitToken { .. }
            | Op::Create { .. }
            | Op::Copy { .. }
            | Op::Set { .. }
            | Op::Unwrap { .. }
            | Op::KOne { f: Fun::Sig | Fun::Enc, .. }
            | Op::Msg { f: Fun::Enc, .. }
    )
}

pub fn judge_fresh(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    let mut d = Drawn::default();
    let mut ids: HashMap<String, String> = HashMap::new();
    let mut serials: HashMap<u64, Vec<Hx>> = HashMap::new();
    let mut inits: std::collections::HashSet<u64> = Default::default();
    let mut salts: HashMap<String, (String, String)> = HashMap::new();
    for (k, i) in out.incs.iter().enumerate() {
        // the source stayed away for the rest of the call
        let lost: Vec<u32> = i
            .ev
            .iter()
            .filter_map(|e| match e {
                Ev::Fault { id, kind: FaultKind::RngFail, .. } if p.incs[k].faults.iter().any(|f| f.op == *id && f.only && f.count >= 1000) => Some(*id),
                _ => None,
            })
            .collect();
        for c in i.calls() {
            let Some(r) = &c.res else { continue };
            let op = &ops[&c.id].op;
            if r.rv == 0 && lost.contains(&c.id) && needs_random(op) {
                st.nontrivial = true;
                return vec![Viol {
                    sig: "failure-hidden".into(),
                    detail: format!("incarnation {k}: op{} succeeded although the random source failed", c.id),
                }];
            }
            if r.rv != 0 {
                continue;
            }
            let mut hit = None;
            match (op, &r.out) {
                (Op::Random { n, .. }, Some(o)) => {
                    st.nontrivial = true;
                    if r.n.contains(&0xbad1) {
                        hit = Some(Viol { sig: "repeated".into(), detail: format!("the {n} random bytes repeat each other") });
                    } else {
                        hit = d.add(&format!("the output of op{}", c.id), &o.0);
                    }
                }
                // (NSS tokens have a fixed one)
                (Op::TInfo { slot }, _) if p.image.starts_with("sq") => {
                    let Some((_, Some(s))) = r.a.first() else { continue };
                    if s.0.iter().all(|c| *c == b' ') {
                        // not initialized
                        continue;
                    }
                    if s.0.iter().all(|c| *c == s.0[0]) {
                        return vec![Viol { sig: "constant".into(), detail: format!("incarnation {k}, op{}: the serial number is {}", c.id, hex(&s.0)) }];
                    }
                    let l = serials.entry(*slot).or_default();
                    let fresh = inits.remove(slot);
                    if l.last() != Some(s) {
                        if l.contains(s) {
                            hit = Some(Viol { sig: "repeated".into(), detail: "an earlier serial number of the token came back".into() });
                        }
                        l.push(s.clone());
                    } else if fresh {
                        hit = Some(Viol { sig: "repeated".into(), detail: "the token was initialized and has the same serial number".into() });
                    }
                }
                (Op::InitToken { slot, .. }, _) => {
                    inits.insert(*slot);
                }
                (Op::KOne { f: Fun::Sig | Fun::Enc, .. }, Some(o)) if ops[&c.id].tag == 25 => {
                    hit = d.add(&format!("the output of op{}", c.id), &o.0);
                }
                (Op::Get { o, .. }, _) if ops[&c.id].tag == 25 => {
                    for (a, v) in &r.a {
                        let Some(v) = v else { continue };
                        match *a {
                            CKA_VALUE | CKA_MODULUS | CKA_PRIVATE_EXPONENT => hit = hit.or(d.add(&format!("attribute 0x{a:x} of key {o}"), &v.0)),
                            CKA_EC_POINT => hit = hit.or(d.add(&format!("the point of key {o}"), v.0.get(3..).unwrap_or(&[]))),
                            CKA_UNIQUE_ID => {
                                let id = String::from_utf8_lossy(&v.0).to_string();
                                let me = format!("object {o}");
                                let was = ids.entry(id.clone()).or_insert(me.clone());
                                if *was != me {
                                    hit = hit.or(Some(Viol { sig: "same-id".into(), detail: format!("{was} and {me} both have the unique id {id}") }));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
            if let Some(mut v) = hit {
                v.detail = format!("incarnation {k}, op{}: {}", c.id, v.detail);
                return vec![v];
            }
        }
        for e in &i.ev {
            let Ev::Note { s } = e else { continue };
            let Some(s) = s.strip_prefix("at rest ") else { continue };
            let mut w = s.splitn(3, ' ');
            let (Some(ctx), Some(ct), Some(what)) = (w.next(), w.next(), w.next()) else { continue };
            st.nontrivial = true;
            for part in ctx.split('/') {
                let Some(b) = unhex(part).filter(|b| b.len() >= 12) else { continue };
                // the keys of attributes are made with the id of the object
                if b.len() == 36 && b[8] == b'-' {
                    continue;
                }
                if Drawn::default().add("", &b).is_some_and(|v| v.sig == "constant") {
                    return vec![Viol { sig: "constant".into(), detail: format!("before incarnation {k}: salt or IV {part} of {what}") }];
                }
                let was = salts.entry(part.into()).or_insert((ct.into(), what.into()));
                if was.0 != ct {
                    return vec![Viol {
                        sig: "repeated".into(),
                        detail: format!("before incarnation {k}: {what} has the salt or IV {part} of {}", was.1),
                    }];
                }
            }
        }
    }
    vec![]
}

/// and nothing else than what the calls say may have happened
fn judge_both(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    let v = judge_fresh(p, out, st);
    if !v.is_empty() {
        return v;
    }
    let mut v = judge_model(p, out, st);
    // (P06: an initialization that fails half way has removed the old token)
    v.retain(|x| x.sig != "init-token-interrupted");
    v
}

/// failures of the random source in calls of this incarnation
fn fail_rng(g: &mut G, k: usize, pct: u64) {
    if !g.pct(pct) {
        return;
    }
    let ids: Vec<(u32, Option<std::mem::Discriminant<Op>>)> = {
        let inc = &g.p.incs[k];
        let (pre, rest): (Vec<_>, Vec<_>) = (inc.pre.iter().collect(), inc.clients.iter().flatten().chain(&inc.post).collect());
        pre.into_iter().chain(rest).map(|o| (o.id, needs_random(&o.op).then(|| std::mem::discriminant(&o.op)))).collect()
    };
    // the rare kinds of calls as often as the others
    let mut good: Vec<Vec<u32>> = vec![];
    let mut kinds = vec![];
    for (id, d) in &ids {
        let Some(d) = d else { continue };
        match kinds.iter().position(|x| x == d) {
            Some(i) => good[i].push(*id),
            None => {
                kinds.push(*d);
                good.push(vec![*id]);
            }
        }
    }
    for _ in 0..1 + g.r.below(3) {
        let op = if !good.is_empty() && g.pct(90) { let i = g.r.idx(good.len()); *g.r.pick(&good[i]) } else { g.r.pick(&ids).0 };
        let nth = match g.r.below(3) {
            0 => 0,
            1 => g.r.below(4) as u32,
            _ => g.r.below(12) as u32,
        };
        let count = if g.pct(65) { 1000 } else { 1 + g.r.below(2) as u32 };
        g.p.incs[k].faults.push(Fault { op, io: Io::Rng, nth, kind: FaultKind::RngFail, count, only: true, file: String::new() });
    }
}

/// scans what is stored at the end, and fails the source on the way
fn with_rng(g: &mut G, pct: u64) {
    let last = Inc { sched: SchedSpec { seed: g.r.next(), ..Default::default() }, ..Default::default() };
    g.p.incs.push(last);
    let n = g.p.incs.len();
    for k in 0..n {
        g.p.incs[k].tamper.push(Tamper::Scan);
        if k + 1 < n {
            fail_rng(g, k, pct);
        }
    }
}

fn readable(g: &mut G, t: &mut Tmpl) {
    t.retain(|x| !matches!(x.0, CKA_SENSITIVE | CKA_EXTRACTABLE));
    t.push((CKA_SENSITIVE, AV::B(false)));
    t.push((CKA_EXTRACTABLE, AV::B(true)));
    let _ = g;
}

fn look(g: &mut G, s: V, o: V, a: &[u64]) -> OpRec {
    let mut r = g.op(Op::Get { s, o, a: a.to_vec() });
    r.tag = 25;
    r
}

/// threads that draw keys, numbers and signatures
fn draw(g: &mut G) {
    let conf = *g.r.pick(&["sq", "sq", "two", "nss", "mix"]);
    g.p.image = conf.into();
    let slots: Vec<u64> = match conf {
        "two" | "mix" => vec![1, 2],
        _ => vec![1],
    };
    g.pairs = true;
    let ninc = 1 + g.r.below(3) as usize;
    for _ in 0..ninc {
        g.objs.clear();
        let mut inc = Inc::default();
        inc.pre.push(g.op(Op::Init { conf: conf.into() }));
        // one session and its signing keys for each client
        let nc = 1 + g.r.idx(4);
        let mut logged = vec![];
        for _ in 0..nc {
            let slot = *g.r.pick(&slots);
            // (a session the NSS token has no SO functions for still draws)
            let s = g.v();
            inc.pre.push(g.op(Op::Open { slot, rw: true, s }));
            if !logged.contains(&slot) {
                logged.push(slot);
                let l = g.login(s);
                inc.pre.push(l);
            }
            let mut keys: Vec<(V, Mech)> = vec![];
            for _ in 0..g.r.below(3) {
                if g.pct(60) {
                    let p = g.genpair_k(s, slot, false, true);
                    let Op::GenPair { o2, m, .. } = &p else { continue };
                    let mm = match m.m {
                        CKM_EC_KEY_PAIR_GEN => CKM_ECDSA_SHA256,
                        CKM_RSA_PKCS_KEY_PAIR_GEN => CKM_SHA256_RSA_PKCS_PSS,
                        _ => 0,
                    };
                    if mm != 0 {
                        keys.push((*o2, pss(mm)));
                    }
                    inc.pre.push(g.op(p));
                } else {
                    let c = g.create_k(s, slot, K::RsaPriv, false, true);
                    let Op::Create { o, .. } = &c else { continue };
                    keys.push((*o, pss(CKM_SHA256_RSA_PKCS_PSS)));
                    inc.pre.push(g.op(c));
                }
            }
            let mut ops = vec![];
            for _ in 0..2 + g.r.below(5) {
                let token = g.pct(40);
                match g.r.below(14) {
                    0..=4 => {
                        let n = match g.r.below(8) {
                            0 => 1 + g.r.below(16),
                            1..=3 => 16 + g.r.below(50),
                            4 | 5 => 100 + g.r.below(900),
                            6 => 2000 + g.r.below(9000),
                            _ => *g.r.pick(&[65535u64, 65536, 65537, 131072, 200_000]),
                        };
                        ops.push(g.op(Op::Random { s, n: n as u32 }));
                    }
                    5..=7 => {
                        let mut op = g.genkey_k(s, slot, token, true);
                        if let Op::GenKey { o, t, .. } = &mut op {
                            readable(g, t);
                            let o = *o;
                            ops.push(g.op(op));
                            let r = look(g, s, o, &[CKA_VALUE, CKA_UNIQUE_ID]);
                            ops.push(r);
                        }
                    }
                    8 => {
                        let mut op = g.genpair_k(s, slot, token, true);
                        if let Op::GenPair { o, o2, t2, m, .. } = &mut op {
                            readable(g, t2);
                            let (o, o2) = (*o, *o2);
                            let rsa = m.m == CKM_RSA_PKCS_KEY_PAIR_GEN;
                            ops.push(g.op(op));
                            let a: &[u64] = if rsa { &[CKA_MODULUS, CKA_UNIQUE_ID] } else { &[CKA_EC_POINT, CKA_UNIQUE_ID] };
                            let r = look(g, s, o, a);
                            ops.push(r);
                            let a: &[u64] = if rsa { &[CKA_PRIVATE_EXPONENT, CKA_UNIQUE_ID] } else { &[CKA_VALUE, CKA_UNIQUE_ID] };
                            let r = look(g, s, o2, a);
                            ops.push(r);
                        }
                    }
                    9 => {
                        let n = *g.r.pick(&[1usize, 8, 32, 48, 100]);
                        let d = if g.pct(70) { vec![0x5a; n] } else { g.r.bytes(n) };
                        ops.push(g.op(Op::Seed { s, d: Hx(d) }));
                    }
                    10 => {
                        let op = g.create_k(s, slot, K::Aes, token, true);
                        let Op::Create { o, .. } = &op else { continue };
                        let o = *o;
                        ops.push(g.op(op));
                        let r = look(g, s, o, &[CKA_UNIQUE_ID]);
                        ops.push(r);
                    }
                    _ => {
                        if keys.is_empty() {
                            ops.push(g.op(Op::Random { s, n: 24 }));
                            continue;
                        }
                        let (o, m) = g.r.pick(&keys).clone();
                        ops.push(g.op(Op::KInit { s, f: Fun::Sig, m, o }));
                        let mut r = g.op(Op::KOne { s, f: Fun::Sig, d: Hx(vec![1; 32]), sig: Hx::default(), b: Buf::Big });
                        r.tag = 25;
                        ops.push(r);
                    }
                }
            }
            inc.clients.push(ops);
        }
        let conc = nc > 1;
        if !conc {
            let mut c = inc.clients.pop().unwrap();
            inc.pre.append(&mut c);
        }
        if g.pct(40) {
            inc.post.push(g.op(Op::Fini));
        }
        inc.sched = g.sched(conc);
        g.p.incs.push(inc);
    }
    with_rng(g, 50);
}

fn pss(m: u64) -> Mech {
    let p = if m == CKM_SHA256_RSA_PKCS_PSS { Par::Pss { hash: CKM_SHA256, mgf: CKG_MGF1_SHA256, salt: 32 } } else { Par::None };
    Mech { m, p }
}

fn store(g: &mut G, conf: &str, io: u64) {
    g.p.image = conf.into();
    g.private_pct = 70;
    let kinds = if conf == "nss" { vec![K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp] } else { vec![K::Data, K::Aes, K::Gen, K::RsaPriv, K::EcImp, K::Otp] };
    super::obj::storage_of(g, conf, 1, &W { genpair: 0, genkey: 6, ..WCHANGE }, 15, io, 20, kinds);
    with_rng(g, 85);
}

pub fn p25() -> Vec<Scen> {
    vec![
        Scen { name: "draw", weight: 6, gen_: draw, judge: judge_fresh },
        Scen { name: "store", weight: 3, gen_: |g| store(g, "sq", 0), judge: judge_both },
        Scen { name: "store-nss", weight: 2, gen_: |g| store(g, "nss", 0), judge: judge_fresh },
        Scen {
            name: "pins",
            weight: 3,
            gen_: |g| {
                super::pins::change(g, "sq", 0, 10, 15);
                with_rng(g, 90);
            },
            judge: judge_both,
        },
        Scen {
            name: "pins-nss",
            weight: 2,
            gen_: |g| {
                super::pins::change(g, "nss", 0, 10, 10);
                with_rng(g, 90);
            },
            judge: judge_fresh,
        },
        Scen {
            name: "init",
            weight: 2,
            gen_: |g| {
                let i = if g.pct(50) { "sq" } else { "sq0" };
                super::pins::init_token(g, "sq", i, 0, 0);
                with_rng(g, 85);
            },
            judge: judge_both,
        },
    ]
}
