//! Concurrent clients: sessions, logins, object operations, everything.
use super::*;
use crate::sched::SchedSpec;
use kryoptic_lib::pkcs11::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum C {
    /// object operation
    Obj,
    Login,
    LoginWrong,
    LoginSo,
    Logout,
    OpenRw,
    OpenRo,
    Close,
    CloseAll,
    SInfo,
    TInfo,
    SetPin,
    InitPin,
    InitToken,
    Digest,
    Crypt,
    Sign,
    Random,
    Seed,
    Info,
    FindStep,
    Save,
    Odd,
    Finish,
    Wrap,
    Derive,
    /// a key in any use
    Use,
    /// a session of one slot with an object of another
    Cross,
    /// a session that was closed
    Stale,
}
use C::*;

#[derive(Clone, Copy, Debug)]
pub struct Ss {
    pub v: V,
    pub slot: u64,
    pub rw: bool,
    pub shared: bool,
}

pub type CW = &'static [(C, u32)];

/// one operation of a client with sessions ss
pub fn cop(g: &mut G, ss: &mut Vec<Ss>, w: CW, ow: &W) -> OpRec {
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    let k = w[g.r.weighted(&ws)].0;
    let i = g.r.idx(ss.len());
    let Ss { v: s, slot, shared, .. } = ss[i];
    match k {
        Obj => {
            let ow = if shared { ow.single() } else { ow.clone() };
            g.objop(s, slot, &ow)
        }
        Login => g.login(s),
        LoginWrong => {
            let pin = wrong(g, USER);
            g.op(Op::Login { s, u: CKU_USER, pin })
        }
        LoginSo => g.op(Op::Login { s, u: CKU_SO, pin: SO.into() }),
        Logout => g.op(Op::Logout { s }),
        OpenRw | OpenRo => {
            let n = g.v();
            let rw = k == OpenRw;
            ss.push(Ss { v: n, slot, rw, shared: false });
            g.op(Op::Open { slot, rw, s: n })
        }
        Close => {
            if ss.len() > 1 && g.pct(70) {
                ss.remove(i);
            }
            g.op(Op::Close { s })
        }
        CloseAll => g.op(Op::CloseAll { slot }),
        SInfo => g.op(Op::SInfo { s }),
        TInfo => g.op(Op::TInfo { slot }),
        SetPin => g.op(Op::SetPin { s, old: USER.into(), new: USER.into() }),
        InitPin => g.op(Op::InitPin { s, pin: USER.into() }),
        InitToken => g.op(Op::InitToken { slot, pin: SO.into(), label: LABEL.into() }),
        Digest => match g.r.below(5) {
            0 | 1 => g.op(Op::KInit { s, f: Fun::Dig, m: m(CKM_SHA256), o: 0 }),
            2 => g.op(Op::KUpd { s, f: Fun::Dig, d: Hx(vec![1, 2, 3]), b: Buf::Big }),
            3 => g.op(Op::KFin { s, f: Fun::Dig, sig: Hx::default(), b: Buf::Big }),
            _ => g.op(Op::KOne { s, f: Fun::Dig, d: Hx(vec![1, 2, 3]), sig: Hx::default(), b: Buf::Big }),
        },
        Crypt => {
            let f = if g.pct(50) { Fun::Enc } else { Fun::Dec };
            let d = Hx(vec![7; 32]);
            match (g.r.below(5), g.pick_obj(slot)) {
                (0 | 1, Some(o)) => {
                    let iv = Hx(vec![3; 16]);
                    g.op(Op::KInit { s, f, m: Mech { m: CKM_AES_CBC, p: Par::Raw(iv) }, o: o.v })
                }
                (2, _) => g.op(Op::KUpd { s, f, d, b: Buf::Big }),
                (3, _) => g.op(Op::KFin { s, f, sig: Hx::default(), b: Buf::Big }),
                _ => g.op(Op::KOne { s, f, d, sig: Hx::default(), b: Buf::Big }),
            }
        }
        Sign => {
            let f = if g.pct(60) { Fun::Sig } else { Fun::Ver };
            let d = Hx(vec![7; 32]);
            let sig = Hx(vec![9; 32]);
            match (g.r.below(5), g.pick_obj(slot)) {
                (0 | 1, Some(o)) => {
                    let mm = if matches!(o.k, K::EcPriv | K::EcPub) { CKM_ECDSA_SHA256 } else { CKM_SHA256_HMAC };
                    g.op(Op::KInit { s, f, m: m(mm), o: o.v })
                }
                (2, _) => g.op(Op::KUpd { s, f, d, b: Buf::Big }),
                (3, _) => g.op(Op::KFin { s, f, sig, b: Buf::Big }),
                _ => g.op(Op::KOne { s, f, d, sig, b: Buf::Big }),
            }
        }
        Random => {
            let n = 1 + g.r.below(40) as u32;
            g.op(Op::Random { s, n })
        }
        Seed => {
            let d = g.r.bytes(8);
            g.op(Op::Seed { s, d: Hx(d) })
        }
        Info => match g.r.below(3) {
            0 => g.op(Op::SlotList),
            1 => g.op(Op::MechList { slot }),
            _ => g.op(Op::MechInfo { slot, m: CKM_SHA256 }),
        },
        FindStep => match g.r.below(4) {
            0 | 1 => {
                let t = g.find_t(slot);
                let t = if t.is_empty() { vec![(CKA_PRIVATE, AV::B(true))] } else { t };
                g.op(Op::FindInit { s, t })
            }
            2 => {
                let n = 1 + g.r.below(4) as u32;
                g.op(Op::FindNext { s, n })
            }
            _ => g.op(Op::FindFinal { s }),
        },
        Save => {
            let v = g.v();
            if g.pct(50) {
                g.op(Op::SaveSt { s, v, b: Buf::Exact })
            } else {
                g.op(Op::RestSt { s, v: v.saturating_sub(2), mutate: 0 })
            }
        }
        Odd => {
            let k = g.r.below(64) as u32;
            let o = g.pick_obj(slot).map(|o| o.v).unwrap_or(0);
            g.op(Op::Odd { s, o, k })
        }
        Wrap => wrap(g, s, slot),
        Derive => derive(g, s, slot),
        Use => any_use(g, s, slot, shared),
        Cross => {
            let other: Vec<GO> = g.objs.iter().filter(|o| o.slot != slot).cloned().collect();
            if other.is_empty() {
                return g.op(Op::SInfo { s });
            }
            let mut o = g.r.pick(&other).clone();
            o.slot = slot;
            let op = match g.r.below(6) {
                0 => g.get(s, &o),
                1 => g.set(s, &o),
                2 => g.copy(s, &o),
                3 => Op::Destroy { s, o: o.v },
                4 => Op::Size { s, o: o.v },
                _ => g.get(s, &o),
            };
            g.op(op)
        }
        Stale => {
            // any session there ever was
            let v = 2 + g.r.below(s.max(2) as u64) as V;
            g.op(Op::SInfo { s: v })
        }
        Finish => g.op(Op::Cancel { s, flags: 0xffff_ffff }),
    }
}

fn iv16() -> Par {
    Par::Raw(Hx(vec![3; 16]))
}
fn key_of(g: &mut G, slot: u64, ks: &[K]) -> Option<GO> {
    let v: Vec<GO> = g.objs.iter().filter(|o| o.slot == slot && ks.contains(&o.k)).cloned().collect();
    if v.is_empty() { None } else { Some(g.r.pick(&v).clone()) }
}

fn wrap(g: &mut G, s: V, slot: u64) -> OpRec {
    let blobs = g.blobs.clone();
    if !blobs.is_empty() && g.pct(55) {
        let (b, k, m, kv) = g.r.pick(&blobs).clone();
        let kv = if g.pct(85) { kv } else { key_of(g, slot, &[K::Aes]).map(|o| o.v).unwrap_or(kv) };
        let (tp, pp) = (g.token_pct, g.private_pct);
        let (token, private) = (g.pct(tp), g.pct(pp));
        let (o, l) = g.new_obj(slot, k, token, private);
        let mut t = g.base(token, private, &l);
        let (cl, kt) = match k {
            K::Aes => (CKO_SECRET_KEY, CKK_AES),
            K::EcPriv => (CKO_PRIVATE_KEY, CKK_EC),
            _ => (CKO_SECRET_KEY, CKK_GENERIC_SECRET),
        };
        t.push((CKA_CLASS, AV::U(cl)));
        t.push((CKA_KEY_TYPE, AV::U(kt)));
        t.push((CKA_SIGN, AV::B(true)));
        g.sens(&mut t);
        g.uses(&mut t, k, false);
        g.fix(&mut t, false);
        g.tempt(&mut t, k, 0);
        return g.op(Op::Unwrap { s, m, k: kv, b, o, t });
    }
    let (Some(k), Some(o)) = (key_of(g, slot, &[K::Aes]), key_of(g, slot, &[K::Aes, K::Gen, K::Aes, K::Gen, K::EcPriv])) else {
        return g.op(Op::SInfo { s });
    };
    let (mm, p) = match g.r.below(5) {
        0 | 1 => (CKM_AES_KEY_WRAP, Par::None),
        2 => (CKM_AES_KEY_WRAP_KWP, Par::None),
        3 => (CKM_AES_CBC_PAD, iv16()),
        _ => (CKM_AES_KEY_WRAP_PAD, Par::None),
    };
    let m = Mech { m: mm, p };
    let b = g.v();
    g.blobs.push((b, o.k, m.clone(), k.v));
    g.op(Op::Wrap { s, m, k: k.v, o: o.v, b })
}

fn derive(g: &mut G, s: V, slot: u64) -> OpRec {
    let Some(k) = key_of(g, slot, &[K::Gen, K::Gen, K::Aes]) else {
        return g.op(Op::SInfo { s });
    };
    let n = 16 + 8 * g.r.idx(5);
    let (mm, p) = match g.r.below(8) {
        0 => (CKM_HKDF_DERIVE, Par::Hkdf { hash: CKM_SHA256, salt: Hx(vec![1; 8]), info: Hx(vec![2; 5]) }),
        1 => (CKM_AES_ECB_ENCRYPT_DATA, Par::Kds(Hx(vec![5; 32]))),
        2 => (CKM_CONCATENATE_BASE_AND_DATA, Par::Kds(Hx(vec![6; n]))),
        3 => (CKM_CONCATENATE_DATA_AND_BASE, Par::Kds(Hx(vec![6; n]))),
        4 | 5 => (CKM_XOR_BASE_AND_DATA, Par::Kds(Hx(vec![0; n]))),
        6 => {
            let o = 8 * g.r.below(4);
            (CKM_EXTRACT_KEY_FROM_KEY, Par::Ulong(o))
        }
        _ => (CKM_SHA256_KEY_DERIVATION, Par::None),
    };
    let (tp, pp) = (g.token_pct, g.private_pct);
    let (token, private) = (g.pct(tp), g.pct(pp));
    let (o, l) = g.new_obj(slot, K::Gen, token, private);
    let mut t = g.base(token, private, &l);
    t.push((CKA_CLASS, AV::U(CKO_SECRET_KEY)));
    t.push((CKA_KEY_TYPE, AV::U(CKK_GENERIC_SECRET)));
    if mm != CKM_XOR_BASE_AND_DATA || g.pct(50) {
        t.push((CKA_VALUE_LEN, AV::U(16)));
    }
    t.push((CKA_SIGN, AV::B(true)));
    if g.pct(60) {
        t.push((CKA_SENSITIVE, AV::B(false)));
        t.push((CKA_EXTRACTABLE, AV::B(true)));
    } else {
        g.sens(&mut t);
    }
    g.uses(&mut t, K::Gen, false);
    g.tempt(&mut t, K::Gen, 0);
    g.op(Op::Derive { s, m: Mech { m: mm, p }, k: k.v, o, t })
}

fn any_use(g: &mut G, s: V, slot: u64, shared: bool) -> OpRec {
    let d = Hx(vec![7; 32]);
    let Some(o) = key_of(g, slot, &[K::Aes, K::Gen, K::Rsa, K::EcPub, K::EcPriv]) else {
        return g.op(Op::SInfo { s });
    };
    match g.r.below(10) {
        0..=5 => {
            let crypt = |g: &mut G| if g.pct(50) { Fun::Enc } else { Fun::Dec };
            let sign = |g: &mut G| if g.pct(60) { Fun::Sig } else { Fun::Ver };
            let (f, m) = match o.k {
                K::Aes => match g.r.below(8) {
                    0 => (crypt(g), Mech { m: CKM_AES_CBC, p: iv16() }),
                    1 => (crypt(g), Mech { m: CKM_AES_CBC_PAD, p: iv16() }),
                    2 => (crypt(g), m(CKM_AES_ECB)),
                    3 => (crypt(g), Mech { m: CKM_AES_CTR, p: Par::Ctr { bits: 64, cb: Hx(vec![1; 16]) } }),
                    4 => (
                        crypt(g),
                        Mech { m: CKM_AES_GCM, p: Par::Gcm { iv: Hx(vec![4; 12]), aad: Hx::default(), taglen: 16 } },
                    ),
                    5 => (
                        crypt(g),
                        Mech { m: CKM_AES_CCM, p: Par::Ccm { len: 32, nonce: Hx(vec![4; 12]), aad: Hx::default(), maclen: 16 } },
                    ),
                    6 => (sign(g), m(CKM_AES_CMAC)),
                    _ => (sign(g), Mech { m: CKM_AES_CMAC_GENERAL, p: Par::Ulong(8) }),
                },
                K::Rsa => match g.r.below(3) {
                    0 => (Fun::Enc, m(CKM_RSA_PKCS)),
                    1 => (Fun::Ver, m(CKM_SHA256_RSA_PKCS)),
                    _ => (Fun::Ver, m(CKM_RSA_PKCS)),
                },
                K::EcPub | K::EcPriv => {
                    let mm = if g.pct(50) { CKM_ECDSA } else { CKM_ECDSA_SHA256 };
                    (if o.k == K::EcPub { Fun::Ver } else { Fun::Sig }, m(mm))
                }
                _ => match g.r.below(3) {
                    0 => (sign(g), m(CKM_SHA256_HMAC)),
                    1 => (sign(g), m(CKM_SHA512_HMAC)),
                    _ => (sign(g), Mech { m: CKM_SHA256_HMAC_GENERAL, p: Par::Ulong(8) }),
                },
            };
            // now and then what the key is not for at all
            let f = if g.pct(10) { *g.r.pick(&[Fun::Enc, Fun::Dec, Fun::Sig, Fun::Ver]) } else { f };
            g.op(Op::KInit { s, f, m, o: o.v })
        }
        6 => {
            let f = *g.r.pick(&[Fun::Enc, Fun::Dec, Fun::Sig, Fun::Ver]);
            g.op(Op::KOne { s, f, d, sig: Hx(vec![9; 32]), b: Buf::Big })
        }
        7 => g.op(Op::Cancel { s, flags: 0xffff_ffff }),
        8 if !shared => g.op(Op::Probe { s, o: o.v }),
        8 => g.op(Op::SInfo { s }),
        _ if g.pct(30) => g.op(Op::DigestKey { s, o: o.v }),
        _ => {
            let f = if g.pct(50) { Fun::Enc } else { Fun::Dec };
            g.op(Op::MsgInit { s, f, m: m(CKM_AES_GCM), o: o.v })
        }
    }
}

/// a PIN that is not `right`
pub fn wrong(g: &mut G, right: &str) -> String {
    let w = match g.r.below(9) {
        0 => right[..right.len() - 1].to_string(),
        1 => format!("{right}x"),
        2 => format!("{right} "),
        3 => right.to_uppercase(),
        4 => right[1..].to_string(),
        5 => format!("\0{right}"),
        6 => (if right == USER { SO } else { USER }).to_string(),
        7 => "12345678".to_string(),
        _ => {
            let n = g.r.below(1_000_000);
            format!("wrong-{n}")
        }
    };
    if w == right { format!("{right}!") } else { w }
}

pub struct Cc {
    pub conf: &'static str,
    pub slots: &'static [u64],
    pub w: CW,
    pub ow: W,
    /// most clients / operations each
    pub clients: u64,
    pub ops: u64,
    /// chance that sessions are shared, in %
    pub shared: u64,
    pub pre_login: u64,
    pub io: u64,
    pub crash: u64,
    /// sequential operations before / after the concurrent part
    pub pre: u64,
    pub post: u64,
    pub token_pct: u64,
    pub private_pct: u64,
    pub audit: bool,
    pub ro_pct: u64,
    /// sets knobs of the generator
    pub knobs: fn(&mut G),
    /// file that faults are limited to
    pub file: &'static str,
}
pub const CC: Cc = Cc {
    conf: "sq",
    slots: &[1],
    w: &[(Obj, 10)],
    ow: WOBJ,
    clients: 3,
    ops: 5,
    shared: 30,
    pre_login: 80,
    io: 0,
    crash: 0,
    pre: 5,
    post: 3,
    token_pct: 60,
    private_pct: 60,
    audit: true,
    ro_pct: 20,
    knobs: |_| (),
    file: "",
};

pub fn concurrent(g: &mut G, c: &Cc) {
    g.p.image = c.conf.into();
    g.token_pct = c.token_pct;
    g.private_pct = c.private_pct;
    if c.conf == "nss" {
        g.kinds = vec![K::Aes, K::Aes, K::Gen, K::Rsa];
    }
    (c.knobs)(g);
    let ninc = if g.pct(25) { 2 } else { 1 };
    for k in 0..ninc {
        g.blobs.clear();
        let mut pre = vec![g.op(Op::Init { conf: c.conf.into() })];
        let mut base: Vec<Ss> = vec![];
        g.objs.retain(|o| o.token);
        for &slot in c.slots {
            let v = g.v();
            pre.push(g.op(Op::Open { slot, rw: true, s: v }));
            base.push(Ss { v, slot, rw: true, shared: true });
            if g.pct(c.pre_login) {
                let l = g.login(v);
                pre.push(l);
            }
            if k > 0 {
                if c.audit {
                    let a = g.audit(v);
                    pre.push(g.op(a));
                }
                let mut old: Vec<GO> = g.objs.iter().filter(|o| o.slot == slot).cloned().collect();
                old.truncate(6);
                for o in old {
                    pre.push(g.locate(v, &o));
                }
            }
        }
        let npre = g.r.below(c.pre + 1);
        let mut ss = base.clone();
        for s in ss.iter_mut() {
            s.shared = false;
        }
        for _ in 0..npre {
            let o = if g.pct(80) {
                let b = *g.r.pick(&base);
                g.objop(b.v, b.slot, &W { create: 10, genkey: 2, ..c.ow.clone() })
            } else {
                let s0 = *g.r.pick(&base);
                let mut t = vec![Ss { shared: false, ..s0 }];
                let o = cop(g, &mut t, c.w, &c.ow);
                for x in t {
                    if x.v != s0.v && matches!(o.op, Op::Open { .. }) {
                        base.push(Ss { shared: true, ..x });
                    }
                }
                o
            };
            pre.push(o);
        }
        let mut inc = Inc::default();
        let nc = 2 + g.r.below(c.clients - 1);
        let mut targets = vec![];
        for _ in 0..nc {
            let mut my: Vec<Ss> = vec![];
            let n = 1 + g.r.below(2);
            for _ in 0..n {
                if g.pct(c.shared) {
                    my.push(*g.r.pick(&base));
                } else {
                    let slot = *g.r.pick(c.slots);
                    let v = g.v();
                    let rw = !g.pct(c.ro_pct);
                    pre.push(g.op(Op::Open { slot, rw, s: v }));
                    my.push(Ss { v, slot, rw, shared: false });
                }
            }
            let n = 1 + g.r.below(c.ops);
            let mut ops = vec![];
            for _ in 0..n {
                let o = cop(g, &mut my, c.w, &c.ow);
                targets.push(o.id);
                ops.push(o);
            }
            inc.clients.push(ops);
        }
        inc.pre = pre;
        for _ in 0..g.r.below(c.post + 1) {
            let o = cop(g, &mut ss, c.w, &c.ow);
            inc.post.push(o);
        }
        for b in &base {
            if c.audit && g.pct(60) {
                let l = g.login(b.v);
                inc.post.push(l);
                let a = g.audit(b.v);
                inc.post.push(g.op(a));
            }
        }
        if g.pct(c.io) {
            let t = *g.r.pick(&targets);
            let f = g.io_fault(t, c.file);
            inc.faults.push(f);
        }
        if g.pct(c.crash) {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        }
        inc.sched = g.sched(true);
        if ninc == 2 && k == 0 && g.pct(30) {
            inc.post.push(g.op(Op::Fini));
        }
        g.p.incs.push(inc);
    }
    let _ = SchedSpec::default();
}

// ------------------------------------------------------------------ P14

const ALL: CW = &[
    (Obj, 30),
    (Login, 8),
    (LoginWrong, 1),
    (LoginSo, 3),
    (Logout, 7),
    (OpenRw, 4),
    (OpenRo, 3),
    (Close, 4),
    (CloseAll, 2),
    (SInfo, 4),
    (TInfo, 3),
    (SetPin, 3),
    (InitPin, 2),
    (InitToken, 1),
    (Digest, 6),
    (Crypt, 7),
    (Sign, 7),
    (Random, 3),
    (Seed, 1),
    (Info, 3),
    (FindStep, 5),
    (Save, 3),
    (Finish, 2),
];

/// only that every call returns
fn judge_ends(_p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    st.nontrivial = out.incs.iter().any(|i| i.meta.switches > 2);
    ends(out).into_iter().collect()
}

pub fn p14() -> Vec<Scen> {
    vec![
        Scen {
            name: "one-slot",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: ALL, clients: 4, ops: 8, shared: 50, io: 15, ..CC }),
            judge: judge_ends,
        },
        Scen {
            name: "two-slots",
            weight: 2,
            gen_: |g| concurrent(g, &Cc { conf: "two", slots: &[1, 2], w: ALL, clients: 4, ops: 8, shared: 50, io: 15, ..CC }),
            judge: judge_ends,
        },
        Scen {
            name: "sessions",
            weight: 3,
            gen_: |g| concurrent(g, &Cc {
                w: &[(Login, 6), (Logout, 6), (SetPin, 4), (FindStep, 4), (Obj, 6), (SInfo, 3), (Close, 2), (OpenRw, 2), (LoginSo, 2), (TInfo, 1), (Sign, 3)],
                clients: 4, ops: 6, shared: 60, ro_pct: 5, ..CC
            }),
            judge: judge_ends,
        },
    ]
}

// ------------------------------------------------------------------ P15

pub fn p15() -> Vec<Scen> {
    vec![
        Scen {
            name: "objects",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: &[(Obj, 10)], ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "objects+logins",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: &[(Obj, 20), (Login, 4), (Logout, 4), (FindStep, 3)], shared: 20, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "objects+sessions",
            weight: 3,
            gen_: |g| concurrent(g, &Cc { w: &[(Obj, 20), (Login, 2), (Logout, 2), (OpenRw, 3), (OpenRo, 2), (Close, 4), (CloseAll, 1)], ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "io",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { w: &[(Obj, 20), (Login, 2), (Logout, 2)], ow: W { genpair: 0, ..WOBJ }, io: 100, ..CC }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P12

const SES: CW = &[
    (SInfo, 10),
    (TInfo, 5),
    (Login, 6),
    (LoginSo, 5),
    (LoginWrong, 1),
    (Logout, 8),
    (OpenRw, 6),
    (OpenRo, 5),
    (Close, 6),
    (CloseAll, 2),
    (Obj, 2),
];

pub fn p12() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 2,
            gen_: |g| concurrent(g, &Cc { w: SES, pre: 4, post: 25, clients: 2, ops: 1, pre_login: 40, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 6,
            gen_: |g| concurrent(g, &Cc { w: SES, pre: 6, post: 10, ops: 6, pre_login: 50, shared: 40, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: SES, pre: 4, post: 12, ops: 4, pre_login: 50, ..CC }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P07

const PRIV: CW = &[(Obj, 24), (Login, 4), (LoginSo, 3), (Logout, 7), (OpenRw, 2), (Close, 3), (CloseAll, 1), (FindStep, 3), (Crypt, 3), (Sign, 3)];

pub fn p07() -> Vec<Scen> {
    vec![
        Scen {
            name: "sequential",
            weight: 3,
            gen_: |g| concurrent(g, &Cc { w: PRIV, pre: 12, post: 16, clients: 2, ops: 1, private_pct: 85, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 6,
            gen_: |g| concurrent(g, &Cc { w: PRIV, pre: 8, post: 6, ops: 5, private_pct: 85, shared: 30, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "nss",
            weight: 1,
            gen_: |g| concurrent(g, &Cc { conf: "nss", w: PRIV, pre: 8, post: 6, ops: 4, private_pct: 85, ow: W { genpair: 0, ..WOBJ }, ..CC }),
            judge: judge_model,
        },
    ]
}

// ------------------------------------------------------------------ P13

const PERM: CW = &[
    (Obj, 24), (Login, 4), (LoginSo, 4), (Logout, 6), (OpenRw, 2), (OpenRo, 3), (Close, 3), (SetPin, 2), (InitPin, 3), (InitToken, 1), (Crypt, 3), (Sign, 3),
];

pub fn p13() -> Vec<Scen> {
    vec![
        super::dedup::so(),
        Scen {
            name: "sequential",
            weight: 4,
            gen_: |g| concurrent(g, &Cc { w: PERM, pre: 10, post: 20, clients: 2, ops: 1, ro_pct: 50, pre_login: 50, ..CC }),
            judge: judge_model,
        },
        Scen {
            name: "concurrent",
            weight: 5,
            gen_: |g| concurrent(g, &Cc { w: PERM, pre: 6, post: 6, ops: 5, ro_pct: 50, pre_login: 50, shared: 20, ..CC }),
            judge: judge_model,
        },
    ]
}
