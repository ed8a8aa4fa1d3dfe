//! P19: stored secrets that were changed while nobody looked.
use super::*;
use kryoptic_lib::pkcs11::*;
use std::collections::{BTreeMap, BTreeSet};

const OK: u64 = 0;
/// tag: object variable * 100 + use
const VERIFY: i64 = 90;

struct Obj {
    v: V,
    label: String,
    k: K,
    public: Option<V>,
}

/// everything that shows an object's secrets; the same tag means the same answer
fn uses(g: &mut G, s: V, o: &Obj, on: V) -> Vec<OpRec> {
    let mut v = vec![];
    let t = o.v as i64 * 100;
    let put = |g: &mut G, v: &mut Vec<OpRec>, op: Op, tag: i64| {
        let mut r = g.op(op);
        r.tag = tag;
        v.push(r);
    };
    let all: Vec<u64> = match o.k {
        K::RsaPriv => vec![
            CKA_PRIVATE_EXPONENT,
            CKA_PRIME_1,
            CKA_PRIME_2,
            CKA_EXPONENT_1,
            CKA_EXPONENT_2,
            CKA_COEFFICIENT,
            CKA_MODULUS,
            CKA_PUBLIC_EXPONENT,
        ],
        K::Rsa => vec![CKA_MODULUS, CKA_PUBLIC_EXPONENT],
        K::Trust => crate::wl::TRUSTS.iter().copied().chain([CKA_HASH_OF_CERTIFICATE, CKA_NAME_HASH_ALGORITHM]).collect(),
        _ => vec![CKA_VALUE],
    };
    for (i, a) in all.iter().enumerate() {
        put(g, &mut v, Op::Get { s, o: on, a: vec![*a] }, t + 1 + i as i64);
    }
    put(g, &mut v, Op::Get { s, o: on, a: all.clone() }, t + 20);
    put(g, &mut v, Op::Get { s, o: on, a: vec![CKA_CLASS, all[0], CKA_KEY_TYPE] }, t + 21);
    match o.k {
        K::Aes | K::Gen | K::RsaPriv => put(g, &mut v, Op::Probe { s, o: on }, t + 30),
        K::EcPriv => {
            let b = g.v();
            let d = Hx(vec![7; 32]);
            put(g, &mut v, Op::KInit { s, f: Fun::Sig, m: m(CKM_ECDSA), o: on }, t + 40);
            put(g, &mut v, Op::KSave { s, f: Fun::Sig, d: d.clone(), v: b }, t + 41);
            put(g, &mut v, Op::KInit { s, f: Fun::Ver, m: m(CKM_ECDSA), o: o.public.unwrap() }, t + 42);
            put(g, &mut v, Op::KOneB { s, f: Fun::Ver, d, v: b, flip: 0, b: Buf::Big }, t + VERIFY);
            v.push(g.op(Op::Cancel { s, flags: CKF_SIGN | CKF_VERIFY }));
        }
        _ => {}
    }
    v
}

fn make(g: &mut G, s: V, nss: bool, pre: &mut Vec<OpRec>) -> Vec<Obj> {
    let kinds: &[K] = if nss {
        &[K::Rsa, K::Rsa, K::Trust, K::Trust, K::RsaPriv, K::RsaPriv, K::EcPriv, K::Aes]
    } else {
        &[K::Aes, K::Gen, K::RsaPriv, K::RsaPriv, K::EcPriv, K::EcPriv, K::Otp, K::Rsa]
    };
    g.hide = 10;
    let mut objs = vec![];
    for _ in 0..2 + g.r.idx(4) {
        let k = *g.r.pick(kinds);
        let label = g.label();
        if k == K::EcPriv {
            let (o, v) = (g.v(), g.v());
            let lp = g.label();
            let private = g.pct(70);
            let t = vec![
                (CKA_TOKEN, AV::B(true)),
                (CKA_PRIVATE, AV::B(false)),
                (CKA_LABEL, x(&lp)),
                (CKA_EC_PARAMS, xb(P256)),
                (CKA_VERIFY, AV::B(true)),
            ];
            let t2 = vec![
                (CKA_TOKEN, AV::B(true)),
                (CKA_PRIVATE, AV::B(private)),
                (CKA_LABEL, x(&label)),
                (CKA_SENSITIVE, AV::B(false)),
                (CKA_EXTRACTABLE, AV::B(true)),
                (CKA_SIGN, AV::B(true)),
            ];
            pre.push(g.op(Op::GenPair { s, o, o2: v, m: m(CKM_EC_KEY_PAIR_GEN), t, t2 }));
            objs.push(Obj { v, label, k, public: Some(o) });
            g.knob(&format!("public{o}:{lp}"), 1);
            objs.push(Obj { v: o, label: lp, k: K::Data, public: None });
            continue;
        }
        let v = g.v();
        let private = g.pct(70) && !matches!(k, K::Rsa | K::Trust);
        let t = g.tmpl(k, true, private, &label);
        pre.push(g.op(Op::Create { s, o: v, t }));
        objs.push(Obj { v, label, k, public: None });
    }
    objs
}

fn tamper(g: &mut G, nss: bool, users: bool) {
    let conf = if nss { "nss" } else { "sq" };
    g.p.image = conf.into();
    let dir = crate::conf::DIR.to_string();
    let db = "/sim/tok1.sql".to_string();
    let (mut pre, s) = g.start(conf, 1, true);
    let objs = make(g, s, nss, &mut pre);
    for o in objs.iter().filter(|o| o.k != K::Data) {
        pre.append(&mut uses(g, s, o, o.v));
    }
    pre.push(g.op(Op::Fini));
    g.p.incs.push(Inc { pre, ..Default::default() });
    let mut pin = USER.to_string();
    for k in 0..1 + g.r.idx(2) {
        let mut inc = Inc::default();
        for _ in 0..1 + g.r.idx(2) {
            let seed = g.r.next();
            inc.tamper.push(match (nss, users && k == 0) {
                (false, false) if g.pct(45) => Tamper::Swap { db: db.clone(), seed },
                (false, false) => Tamper::Blob { db: db.clone(), seed },
                (false, true) if g.pct(10) => Tamper::Users { db: db.clone() },
                (false, true) => {
                    let who = if g.pct(75) { "USER" } else { "SO" };
                    Tamper::User { db: db.clone(), who: who.into(), seed }
                }
                (true, false) => Tamper::Nss { dir: dir.clone(), seed },
                (true, true) => Tamper::Pass { dir: dir.clone(), seed },
            });
        }
        let (mut pre, s) = g.start(conf, 1, false);
        if g.pct(40) {
            let bad = g.r.pick(&["userpin-000", "sopin-0001", "", "wrong-pin-1"]).to_string();
            pre.push(g.op(Op::Login { s, u: 1, pin: bad }));
        }
        pre.push(g.op(Op::Login { s, u: 1, pin: pin.clone() }));
        for o in &objs {
            pre.push(g.op(Op::Locate { s, o: o.v, t: vec![(CKA_LABEL, x(&o.label))] }));
        }
        let all = |g: &mut G, pre: &mut Vec<OpRec>| {
            let mut order: Vec<usize> = (0..objs.len()).collect();
            for i in (1..order.len()).rev() {
                let j = g.r.idx(i + 1);
                order.swap(i, j);
            }
            for i in order {
                let o = &objs[i];
                if o.k == K::Data {
                    continue;
                }
                pre.append(&mut uses(g, s, o, o.v));
                if g.pct(30) {
                    let c = g.v();
                    let tok = g.pct(50);
                    pre.push(g.op(Op::Copy { s, from: o.v, o: c, t: vec![(CKA_TOKEN, AV::B(tok)), (CKA_LABEL, x("copy"))] }));
                    pre.append(&mut uses(g, s, o, c));
                    pre.push(g.op(Op::Destroy { s, o: c }));
                }
            }
        };
        all(g, &mut pre);
        match g.r.below(4) {
            0 if !nss => {
                let new = format!("userpin-1{k}");
                pre.push(g.op(Op::SetPin { s, old: pin.clone(), new: new.clone() }));
                pin = new;
                all(g, &mut pre);
            }
            1 => {
                // attributes that have nothing to do with it
                for o in objs.iter().filter(|o| o.k != K::Data) {
                    if g.pct(50) {
                        pre.push(g.op(Op::Set { s, o: o.v, t: vec![(CKA_ID, x("newid"))] }));
                    }
                }
                all(g, &mut pre);
            }
            2 if !nss => {
                pre.push(g.op(Op::Logout { s }));
                pre.push(g.op(Op::Login { s, u: 0, pin: SO.into() }));
                let new = format!("userpin-2{k}");
                pre.push(g.op(Op::InitPin { s, pin: new.clone() }));
                pre.push(g.op(Op::Logout { s }));
                pre.push(g.op(Op::Login { s, u: 1, pin: new.clone() }));
                pre.push(g.op(Op::Login { s, u: 1, pin: pin.clone() }));
                pin = new;
                all(g, &mut pre);
            }
            _ => {}
        }
        pre.push(g.op(Op::Fini));
        inc.pre = pre;
        g.p.incs.push(inc);
    }
}

fn judge(p: &Plan, out: &RunOut, js: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    let mut label: BTreeMap<V, String> = BTreeMap::new();
    let mut made: BTreeMap<V, &Tmpl> = BTreeMap::new();
    let lab = |t: &Tmpl| crate::model::tget(t, CKA_LABEL).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    for o in ops.values() {
        match &o.op {
            Op::Create { o, t, .. } => {
                made.insert(*o, t);
                label.insert(*o, lab(t));
            }
            Op::GenPair { o, o2, t, t2, .. } => {
                label.insert(*o, lab(t));
                label.insert(*o2, lab(t2));
            }
            _ => {}
        }
    }
    let mut refs: BTreeMap<i64, Res> = BTreeMap::new();
    // changed objects, and how often stored values were moved to them
    let mut bad: BTreeMap<String, u32> = BTreeMap::new();
    let mut users = BTreeSet::new();
    // the PINs that could be right
    let mut pins = vec![USER.to_string()];
    for (k, x) in out.incs.iter().enumerate() {
        for e in &x.ev {
            let Ev::Note { s } = e else { continue };
            if let Some(w) = s.strip_prefix("tamper user ") {
                users.insert(w.split(':').next().unwrap_or("").to_string());
                js.nontrivial = true;
            } else if s.starts_with("tamper ") {
                let l = s.split('[').nth(1).and_then(|y| y.split(']').next()).unwrap_or("").to_string();
                let e = bad.entry(l).or_default();
                *e += s.contains("move") as u32;
                js.nontrivial = true;
            }
        }
        let mut user = false;
        let mut so = false;
        let mut copies: BTreeSet<V> = BTreeSet::new();
        for c in x.calls() {
            let Some(r) = &c.res else { continue };
            let rec = ops[&c.id];
            let viol = |sig: &str, d: String| vec![Viol { sig: sig.into(), detail: format!("incarnation {k}, op{}: {d}", c.id) }];
            match &rec.op {
                Op::Login { u, pin, .. } => {
                    let right = if *u == 0 { pin == SO } else { pins.contains(pin) };
                    if r.rv == OK && !right {
                        return viol("wrong-pin", format!("login as user {u} with a wrong PIN"));
                    }
                    let sure = if *u == 0 { right } else { pins.last() == Some(pin) && pins.len() == 1 };
                    if r.rv != OK && sure && users.is_empty() {
                        return viol("login", format!("login with the right PIN fails with 0x{:x}", r.rv));
                    }
                    if r.rv == OK {
                        user = *u == 1;
                        so = *u == 0;
                    }
                    continue;
                }
                Op::Logout { .. } => {
                    user = false;
                    so = false;
                    continue;
                }
                Op::SetPin { old, new, .. } => {
                    if r.rv == OK && user {
                        if !pins.contains(old) {
                            return viol("wrong-pin", "the PIN was changed with a wrong PIN".into());
                        }
                        pins = vec![new.clone()];
                    } else if user && users.is_empty() && pins.contains(old) {
                        return viol("set-pin", format!("C_SetPIN fails with 0x{:x}", r.rv));
                    }
                    continue;
                }
                Op::InitPin { pin, .. } => {
                    if r.rv == OK {
                        pins = vec![pin.clone()];
                    } else if so && users.is_empty() {
                        return viol("init-pin", format!("C_InitPIN fails with 0x{:x}", r.rv));
                    }
                    continue;
                }
                Op::Locate { .. } => {
                    if user && (r.rv != OK || r.h.len() != 1) {
                        return viol("search", format!("an object is not found: 0x{:x}, {} handles", r.rv, r.h.len()));
                    }
                    continue;
                }
                Op::Copy { from, o, .. } => {
                    let Some(l) = label.get(from) else { continue };
                    if r.rv == OK {
                        copies.insert(*o);
                    } else if user && users.is_empty() && !bad.contains_key(l) && r.rv != SKIP {
                        return viol("copy", format!("{l}, which was not changed, can't be copied: 0x{:x}", r.rv));
                    }
                    continue;
                }
                _ => {}
            }
            if rec.tag == 0 || r.rv == SKIP {
                continue;
            }
            if k == 0 {
                refs.insert(rec.tag, r.clone());
                continue;
            }
            let v = (rec.tag / 100) as V;
            let Some(l) = label.get(&v) else { continue };
            let Some(w) = refs.get(&rec.tag) else { continue };
            let how = bad.get(l);
            // does the stored form come from another attribute of this object
            let sig = |b: Option<&Hx>| {
                let within = match b {
                    Some(b) => made.get(&v).is_some_and(|t| t.iter().any(|y| crate::model::tget(t, y.0).as_ref() == Some(&b.0))),
                    None => true,
                };
                if within && how.is_some_and(|n| *n >= 1) { "moved-within-object" } else { "changed" }
            };
            if rec.tag % 100 == VERIFY {
                if r.rv == CKR_SIGNATURE_INVALID as u64 || r.rv == CKR_SIGNATURE_LEN_RANGE as u64 {
                    return viol(sig(None), format!("{l} made a signature with another key"));
                }
                continue;
            }
            let used_copy = match &rec.op {
                Op::Get { o, .. } | Op::Probe { o, .. } | Op::KInit { o, .. } => *o != v && !copies.contains(o),
                _ => false,
            };
            if used_copy || !user {
                continue;
            }
            if w.rv == OK && r.rv != OK {
                if how.is_none() && users.is_empty() && !matches!(rec.op, Op::KSave { .. }) {
                    return viol("unusable", format!("{l}, which was not changed, can't be used: 0x{:x}", r.rv));
                }
                continue;
            }
            if r.rv == OK && r.out != w.out && !matches!(rec.op, Op::KSave { .. }) {
                return viol(sig(None), format!("{l} gives another result than before"));
            }
            for (a, b) in &r.a {
                let o = w.a.iter().find(|y| y.0 == *a);
                if let (Some(b), Some((_, Some(o)))) = (b, o) {
                    if b != o {
                        return viol(sig(Some(b)), format!("attribute 0x{a:x} of {l} is read with a wrong value"));
                    }
                }
                if let (Some(_), Some((_, None))) = (b, o) {
                    return viol("revealed", format!("attribute 0x{a:x} of {l} is readable now"));
                }
            }
        }
    }
    vec![]
}

pub fn p19() -> Vec<Scen> {
    vec![
        Scen { name: "objects", weight: 5, gen_: |g| tamper(g, false, false), judge },
        Scen { name: "users", weight: 3, gen_: |g| tamper(g, false, true), judge },
        Scen { name: "objects-nss", weight: 2, gen_: |g| tamper(g, true, false), judge },
        Scen { name: "users-nss", weight: 1, gen_: |g| tamper(g, true, true), judge },
    ]
}
