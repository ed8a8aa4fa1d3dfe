//! P21: any call with any arguments, on any storage, under any fault.
use super::conc::{concurrent, cop, Cc, Ss, C, CC};
use super::*;
use crate::wild::GROUPS;
use kryoptic_lib::pkcs11::*;

/// tag of the last digest: it must be right
const PROOF: i64 = 21;

fn wild_op(g: &mut G, s: V, slot: u64, objs: &[V], k: u32) -> OpRec {
    let n = g.r.idx(4) + 1;
    let o: Vec<V> = (0..n).filter_map(|_| if objs.is_empty() { None } else { Some(*g.r.pick(objs)) }).collect();
    let out = g.v();
    let kind = *g.r.pick(&[K::Data, K::Aes, K::Aes, K::Gen, K::Gen, K::Rsa, K::RsaPriv, K::EcImp, K::Otp, K::Cert, K::Trust]);
    let token = g.pct(40);
    let private = g.pct(60);
    let label = g.label();
    let t = g.tmpl(kind, token, private, &label);
    let seed = g.r.next();
    g.op(Op::Wild { s, o, out, t, k, slot, seed })
}

/// an operation from its start on, or anything of one kind
fn chain(g: &mut G, s: V, slot: u64, objs: &[V], v: &mut Vec<OpRec>) {
    let (name, ks) = *g.r.pick(GROUPS);
    let n = 1 + g.r.logu(2);
    let first = g.pct(75);
    for i in 0..n {
        let k = if i == 0 && first {
            if name == "message" { *g.r.pick(&[ks[0], ks[5]]) } else { ks[0] }
        } else {
            *g.r.pick(ks)
        };
        v.push(wild_op(g, s, slot, objs, k));
    }
}

const PARTS: C_ = &[
    (C::Obj, 20),
    (C::Login, 6),
    (C::LoginSo, 2),
    (C::LoginWrong, 1),
    (C::Logout, 3),
    (C::SetPin, 1),
    (C::InitPin, 1),
    (C::Digest, 4),
    (C::Crypt, 6),
    (C::Sign, 6),
    (C::Random, 2),
    (C::Info, 2),
    (C::FindStep, 4),
    (C::Save, 3),
    (C::Odd, 12),
    (C::Finish, 2),
    (C::Wrap, 4),
    (C::Derive, 4),
    (C::Use, 12),
    (C::SInfo, 1),
];
type C_ = &'static [(C, u32)];

fn zoo(g: &mut G, s: V, slot: u64, nss: bool, v: &mut Vec<OpRec>) {
    let ks: &[K] = if nss {
        &[K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp]
    } else {
        &[K::Data, K::Aes, K::Aes, K::Gen, K::Gen, K::Rsa, K::RsaPriv, K::EcImp, K::Otp, K::Cert, K::Trust]
    };
    let n = 2 + g.r.idx(5);
    for _ in 0..n {
        let k = *g.r.pick(ks);
        let token = g.pct(50);
        let private = g.pct(60);
        let op = g.create_k(s, slot, k, token, private);
        v.push(g.op(op));
    }
    if g.pct(50) {
        g.pairs = true;
        let token = g.pct(30);
        let op = g.genpair_k(s, slot, token, true);
        v.push(g.op(op));
    }
}

fn faults(g: &mut G, inc: &mut Inc, pct: u64) {
    let ids: Vec<u32> = inc.pre.iter().chain(inc.clients.iter().flatten()).map(|o| o.id).collect();
    if g.pct(pct) {
        for _ in 0..1 + g.r.idx(2) {
            let op = *g.r.pick(&ids);
            let mut f = g.io_fault(op, "");
            f.only = true;
            inc.faults.push(f);
        }
    }
    if g.pct(pct) {
        for _ in 0..1 + g.r.idx(3) {
            let op = *g.r.pick(&ids);
            let nth = if g.pct(60) { 0 } else { g.r.below(8) as u32 };
            let count = if g.pct(60) { 1000 } else { 1 };
            inc.faults.push(Fault { op, io: Io::Rng, nth, kind: FaultKind::RngFail, count, only: true, file: String::new() });
        }
    }
}

/// whatever happened: the library goes down, comes up again and answers
fn proof(g: &mut G, conf: &str, post: &mut Vec<OpRec>) {
    let s = g.v();
    post.push(g.op(Op::Fini));
    post.push(g.op(Op::Init { conf: conf.into() }));
    post.push(g.op(Op::Open { slot: 1, rw: false, s }));
    post.push(g.op(Op::KInit { s, f: Fun::Dig, m: m(CKM_SHA256), o: 0 }));
    post.push(g.op(Op::KOne { s, f: Fun::Dig, d: Hx(b"kryoptic".to_vec()), sig: Hx::default(), b: Buf::Big }));
    for o in post.iter_mut() {
        o.tag = PROOF;
    }
}

fn wild(g: &mut G) {
    let conf = *g.r.pick(&["sq", "sq", "sq", "sq", "nss", "mix"]);
    g.p.image = conf.into();
    g.kinds = vec![K::Data, K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp];
    let slot = if conf == "mix" { 1 + g.r.below(2) } else { 1 };
    let nss = conf == "nss" || slot == 2;
    if nss {
        g.kinds = vec![K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp];
    }
    g.usage = g.pct(20);
    let login = g.pct(85);
    let (mut pre, s) = g.start(conf, slot, login);
    zoo(g, s, slot, nss, &mut pre);
    let mut inc = Inc::default();
    let nc = if g.pct(70) { 1 } else { 2 + g.r.idx(2) };
    let steps = if nc == 1 { 12 + g.r.idx(if g.thorough { 60 } else { 30 }) } else { 3 + g.r.idx(6) };
    for _ in 0..nc {
        let mine = if nc == 1 || g.pct(30) {
            s
        } else {
            let v = g.v();
            let rw = g.pct(80);
            pre.push(g.op(Op::Open { slot, rw, s: v }));
            v
        };
        let mut ss = vec![Ss { v: mine, slot, rw: true, shared: nc > 1 }];
        let mut c = vec![];
        for _ in 0..steps {
            if g.pct(45) {
                c.push(cop(g, &mut ss, PARTS, &WOBJ));
            } else {
                let mut objs: Vec<V> = g.objs.iter().filter(|o| o.slot == slot).map(|o| o.v).collect();
                // what wild calls made
                for o in &c {
                    if let OpRec { op: Op::Wild { out, k: 50..=66, .. }, .. } = o {
                        objs.push(*out);
                        objs.push(*out);
                    }
                }
                chain(g, mine, slot, &objs, &mut c);
            }
        }
        inc.clients.push(c);
    }
    if nc == 1 {
        let mut c = inc.clients.pop().unwrap();
        pre.append(&mut c);
    }
    inc.pre = pre;
    let pct = *g.r.pick(&[0, 30, 60]);
    faults(g, &mut inc, pct);
    proof(g, conf, &mut inc.post);
    inc.sched = g.sched(nc > 1);
    g.p.incs.push(inc);
}

/// SQL that leaves well-formed databases with content nobody would write
fn sql(g: &mut G, nss: bool) -> String {
    let val = |g: &mut G| -> String {
        match g.r.below(12) {
            0 => "NULL".into(),
            1 => "''".into(),
            2 => "'text'".into(),
            3 => "zeroblob(0)".into(),
            4 => format!("zeroblob({})", 1 + g.r.below(40)),
            5 => "-1".into(),
            6 => format!("{}", g.r.below(300)),
            7 => "9223372036854775807".into(),
            8 => "1.5".into(),
            9 => "X'30840fffffff00'".into(),
            10 => {
                let n = 1 + g.r.idx(20);
                format!("X'{}'", hex(&g.r.bytes(n)))
            }
            _ => "X'0000000000000000'".into(),
        }
    };
    let m = 1 + g.r.below(4);
    let r = g.r.below(m);
    let some = format!("(rowid % {m}) = {r}");
    let attrs: &[u64] = &[
        CKA_CLASS, CKA_KEY_TYPE, CKA_VALUE, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_ID, CKA_UNIQUE_ID, CKA_SENSITIVE,
        CKA_EXTRACTABLE, CKA_MODULUS, CKA_PRIVATE_EXPONENT, CKA_EC_PARAMS, CKA_EC_POINT, CKA_ENCRYPT, CKA_OTP_COUNTER,
        CKA_VALUE_LEN, CKA_MODIFIABLE, CKA_DESTROYABLE, CKA_ALLOWED_MECHANISMS, CKA_PRIME_1, CKA_START_DATE,
    ];
    let a = *g.r.pick(attrs);
    let b = *g.r.pick(attrs);
    let v = val(g);
    if nss {
        let tab = *g.r.pick(&["nssPublic", "nssPrivate"]);
        return match g.r.below(9) {
            0..=3 => format!("UPDATE {tab} SET a{a:x}={v} WHERE {some}"),
            4 => format!("UPDATE {tab} SET id={} WHERE {some}", *g.r.pick(&["id+1073741824", "-id", "0", "4294967296", "id+7", "NULL", "'x'"])),
            5 => format!("DELETE FROM {tab} WHERE {some}"),
            6 => format!("UPDATE metaData SET item1={v} WHERE {some}"),
            7 => format!("UPDATE metaData SET item2={v} WHERE {some}"),
            _ => match g.r.below(5) {
                0 => "DROP TABLE metaData".into(),
                1 => format!("DROP TABLE {tab}"),
                2 => "DELETE FROM metaData".into(),
                3 => format!("ALTER TABLE {tab} RENAME COLUMN a0 TO zz"),
                _ => format!("UPDATE metaData SET id='sig_key_' || id WHERE {some}"),
            },
        };
    }
    match g.r.below(14) {
        0..=3 => format!("UPDATE objects SET val={v} WHERE attr={a} AND (id % {m}) = {r}"),
        4 => format!("UPDATE objects SET val={v} WHERE {some}"),
        5 => format!("UPDATE OR IGNORE objects SET attr={b} WHERE attr={a}"),
        6 => format!("DELETE FROM objects WHERE attr={a}"),
        7 => format!("DELETE FROM objects WHERE {some}"),
        8 => format!("UPDATE OR IGNORE objects SET id={} WHERE {some}", *g.r.pick(&["id+1", "-1", "0", "9223372036854775807", "NULL"])),
        9 => format!("INSERT OR IGNORE INTO objects SELECT id+100,attr,val FROM objects WHERE (id % {m}) = {r}"),
        10 => format!("UPDATE meta SET {}={v} WHERE {some}", *g.r.pick(&["data", "value", "name"])),
        11 => format!("DELETE FROM meta WHERE {some}"),
        12 => format!("INSERT OR IGNORE INTO meta SELECT name,value || 'x',data FROM meta WHERE {some}"),
        _ => (*g.r.pick(&[
            "DROP TABLE objects",
            "DROP TABLE meta",
            "DELETE FROM meta",
            "DELETE FROM objects",
            "ALTER TABLE objects RENAME COLUMN val TO vals",
            "UPDATE objects SET val=hex(val)",
            "UPDATE meta SET value=hex(value)",
        ]))
        .into(),
    }
}

fn damage(g: &mut G, nss: bool) -> Tamper {
    let dir = crate::conf::DIR.to_string();
    let db = "/sim/tok1.sql".to_string();
    let file = if nss { format!("{dir}/{}", *g.r.pick(&["key4.db", "cert9.db", "key4.db"])) } else { db.clone() };
    let seed = g.r.next();
    match (g.r.below(10), nss) {
        (0 | 1, _) => Tamper::Raw { file, seed, n: 1 + g.r.below(if seed & 1 == 0 { 4 } else { 400 }) as u32 },
        (2, _) => Tamper::Cut { file, seed },
        (3, false) => Tamper::Swap { db, seed },
        (4, false) => Tamper::Blob { db, seed },
        (5, false) => Tamper::User { db, who: (*g.r.pick(&["SO", "USER"])).into(), seed },
        (3 | 4, true) => Tamper::Nss { dir, seed },
        (5, true) => Tamper::Pass { dir, seed },
        _ => Tamper::Sql { db: file, q: sql(g, nss) },
    }
}

fn corrupt(g: &mut G) {
    let nss = g.pct(40);
    let conf = if nss { "nss" } else { "sq" };
    g.p.image = conf.into();
    g.keep_session = false;
    g.token_pct = 100;
    g.kinds = if nss { vec![K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp] } else { vec![K::Data, K::Aes, K::Gen, K::Rsa, K::RsaPriv, K::EcImp, K::Otp] };
    let (mut pre, s) = g.start(conf, 1, true);
    for _ in 0..2 + g.r.idx(5) {
        let op = g.create(s, 1);
        pre.push(g.op(op));
    }
    if g.pct(60) {
        pre.push(g.op(Op::Fini));
    }
    g.p.incs.push(Inc { pre, ..Default::default() });
    for _ in 0..1 + g.r.idx(3) {
        let mut inc = Inc::default();
        for _ in 0..1 + g.r.idx(3) {
            let t = damage(g, nss);
            inc.tamper.push(t);
        }
        let login = g.pct(85);
        let (mut pre, s) = g.start(conf, 1, login);
        let old: Vec<GO> = g.objs.clone();
        for o in old.iter().take(8) {
            pre.push(g.locate(s, o));
        }
        let mut ss = vec![Ss { v: s, slot: 1, rw: true, shared: false }];
        let n = 6 + g.r.idx(20);
        for _ in 0..n {
            match g.r.below(12) {
                0 | 1 => {
                    let a = g.audit(s);
                    pre.push(g.op(a));
                }
                2 => {
                    let new = if g.pct(50) { USER } else { "another-pin-1" };
                    pre.push(g.op(Op::SetPin { s, old: USER.into(), new: new.into() }));
                }
                3 => pre.push(g.op(Op::TInfo { slot: 1 })),
                4 if g.pct(30) => {
                    pre.push(g.op(Op::CloseAll { slot: 1 }));
                    pre.push(g.op(Op::InitToken { slot: 1, pin: SO.into(), label: LABEL.into() }));
                    pre.push(g.op(Op::Open { slot: 1, rw: true, s }));
                }
                5 => {
                    let objs: Vec<V> = g.objs.iter().map(|o| o.v).collect();
                    chain(g, s, 1, &objs, &mut pre);
                }
                _ => {
                    let o = cop(g, &mut ss, PARTS, &WOBJ);
                    pre.push(o);
                }
            }
        }
        inc.pre = pre;
        let pct = *g.r.pick(&[0, 0, 20]);
        faults(g, &mut inc, pct);
        if g.pct(50) {
            inc.post.push(g.op(Op::Fini));
        }
        inc.sched = g.sched(false);
        g.p.incs.push(inc);
    }
}

const MANY: C_ = &[
    (C::Obj, 30),
    (C::Login, 8),
    (C::LoginSo, 3),
    (C::Logout, 7),
    (C::OpenRw, 4),
    (C::OpenRo, 3),
    (C::Close, 5),
    (C::CloseAll, 2),
    (C::SetPin, 2),
    (C::InitPin, 1),
    (C::InitToken, 1),
    (C::Digest, 5),
    (C::Crypt, 8),
    (C::Sign, 8),
    (C::Random, 3),
    (C::Seed, 1),
    (C::Info, 2),
    (C::FindStep, 5),
    (C::Save, 3),
    (C::Odd, 12),
    (C::Finish, 2),
    (C::Wrap, 5),
    (C::Derive, 5),
    (C::Use, 12),
    (C::Cross, 3),
    (C::Stale, 2),
];

fn crowd(g: &mut G) {
    let conf = *g.r.pick(&["sq", "sq", "two", "nss", "mix"]);
    let slots: &'static [u64] = if matches!(conf, "two" | "mix") { &[1, 2] } else { &[1] };
    concurrent(
        g,
        &Cc {
            conf,
            slots,
            w: MANY,
            ow: W { genpair: 1, probe: 3, ..WOBJ }.single(),
            clients: 4,
            ops: 8,
            shared: 35,
            io: 25,
            crash: 5,
            audit: false,
            ..CC
        },
    );
    for k in 0..g.p.incs.len() {
        let mut inc = std::mem::take(&mut g.p.incs[k]);
        faults(g, &mut inc, 25);
        g.p.incs[k] = inc;
    }
}

pub fn judge(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    for (k, i) in out.incs.iter().enumerate() {
        let mut torn = p.incs[k].faults.iter().any(|f| !f.only);
        let mut down = false;
        for c in i.calls() {
            let Some(r) = &c.res else { continue };
            let o = ops[&c.id];
            if r.n.contains(&0xdead) && !matches!(o.op, Op::Otp { .. } | Op::OtpEnd { .. }) {
                return vec![Viol {
                    sig: "wrote-past-buffer".into(),
                    detail: format!("incarnation {k}: op{} wrote beyond the {} bytes it was given", c.id, "output"),
                }];
            }
            st.nontrivial = true;
            if o.tag != PROOF || torn {
                continue;
            }
            // the token may be gone for good, the library is not
            let token_lost = matches!(r.rv as CK_RV, CKR_TOKEN_NOT_RECOGNIZED | CKR_TOKEN_NOT_PRESENT | CKR_TOKEN_NOT_INITIALIZED | CKR_SLOT_ID_INVALID);
            // (a lock that stays busy outlasts the call it was meant for)
            torn |= c.fault;
            down |= matches!(o.op, Op::Fini) && r.rv != SKIP;
            if !down || torn {
                continue;
            }
            let bad = match &o.op {
                Op::Fini => r.rv != 0 && r.rv != SKIP && r.rv as CK_RV != CKR_CRYPTOKI_NOT_INITIALIZED,
                Op::Init { .. } | Op::KInit { .. } => r.rv != 0 && r.rv != SKIP,
                Op::Open { .. } => r.rv != 0 && !token_lost,
                Op::KOne { .. } => {
                    r.rv != SKIP && (r.rv != 0 || r.out.as_ref().map(|h| h.0.clone()) != Some(crate::hash::sha256(b"kryoptic").to_vec()))
                }
                _ => false,
            };
            if bad {
                return vec![Viol {
                    sig: "does-not-answer".into(),
                    detail: format!("incarnation {k}: afterwards op{} gets 0x{:x}", c.id, r.rv),
                }];
            }
        }
    }
    vec![]
}

pub fn p21() -> Vec<Scen> {
    vec![
        Scen { name: "wild", weight: 6, gen_: wild, judge },
        Scen { name: "corrupt", weight: 4, gen_: corrupt, judge },
        Scen { name: "crowd", weight: 2, gen_: crowd, judge },
    ]
}
