//! P16, P18: cryptographic operations, in one call or in parts.
use super::*;
use crate::sched::SchedSpec;
use kryoptic_lib::pkcs11::*;
use std::collections::HashMap;

const OK: u64 = 0;
const ACTIVE: u64 = CKR_OPERATION_ACTIVE as u64;
const NOTINIT: u64 = CKR_OPERATION_NOT_INITIALIZED as u64;
const SHORT: u64 = CKR_BUFFER_TOO_SMALL as u64;

// what a job is like (knob "job<n>")
/// the output is not a function of the input
pub const RANDOM: i64 = 1;
/// takes its data in one piece only
pub const WHOLE: i64 = 2;
/// must not succeed
pub const BAD: i64 = 4;
/// may fail or not
pub const ANY: i64 = 8;
/// multi-part calls are not supported
pub const ONESHOT: i64 = 16;
/// authenticated encryption
pub const SEALED: i64 = 32;

fn dual_funs(k: u8) -> (Fun, Fun) {
    match k {
        0 => (Fun::Enc, Fun::Dig),
        1 => (Fun::Dec, Fun::Dig),
        2 => (Fun::Enc, Fun::Sig),
        _ => (Fun::Dec, Fun::Ver),
    }
}

/// C_DigestEncryptUpdate and its like: both operations or none
fn step_dual(j: &mut J, rec: &OpRec, r: &Res, fault: bool) -> Result<(), (String, String)> {
    let bad = |s: &str, d: String| Err((s.to_string(), d));
    let (s, k, b, at, len) = match &rec.op {
        Op::Dual { s, k, d, b } => (*s, *k, *b, None, d.0.len()),
        Op::DualB { s, k, at, n, b, .. } => (*s, *k, *b, Some(*at as usize), *n as usize),
        _ => return Ok(()),
    };
    let (f1, f2) = dual_funs(k);
    let what = format!("dual {} and {}", fun_name(f1), fun_name(f2));
    let a = j.st.get(&(s, f1)).cloned().unwrap_or_default();
    let m = j.st.get(&(s, f2)).cloned().unwrap_or_default();
    if matches!(a, St::None) || matches!(m, St::None) {
        if r.rv == OK || r.out.is_some() {
            return bad("answers", format!("a {what} answered though one of them is not active"));
        }
        if r.rv != NOTINIT && !fault && !matches!(a, St::Unk) && !matches!(m, St::Unk) {
            return bad("answers", format!("a {what} gave 0x{:x} though one of them is not active", r.rv));
        }
        return Ok(());
    }
    let (St::Act { job: ja, n: na, good: ga, out: oa, .. }, St::Act { job: jm, n: nm, good: gm, used: um, out: om }) = (a, m) else {
        j.st.insert((s, f1), St::Unk);
        j.st.insert((s, f2), St::Unk);
        return Ok(());
    };
    let fl = (j.flags(ja) | j.flags(jm)) & (BAD | ANY);
    let aligned = rec.tag == ja && ga && gm && j.flags(jm) & ONESHOT == 0;
    if b == Buf::Query {
        if r.rv != OK && aligned && !fault && fl == 0 {
            return bad("query", format!("asking a {what} for the length failed with 0x{:x}", r.rv));
        }
        if r.rv != OK {
            j.st.insert((s, f1), St::Unk);
            j.st.insert((s, f2), St::Unk);
        }
        return Ok(());
    }
    if r.rv == SHORT {
        return match b {
            Buf::Exact => bad("query", format!("a {what} said it needs {} bytes, which then were not enough", r.n.first().unwrap_or(&0))),
            Buf::Len(_) => Ok(()),
            _ => bad("too-small", format!("64 KiB are too small for a {what}")),
        };
    }
    if r.rv != OK {
        j.st.insert((s, f1), St::Unk);
        j.st.insert((s, f2), St::Unk);
        if fault || !aligned || fl != 0 {
            return Ok(());
        }
        return bad("failed", format!("a {what} failed with 0x{:x}", r.rv));
    }
    let o = r.out.as_ref().map(|x| x.0.clone()).unwrap_or_default();
    let mut oa = oa;
    oa.extend_from_slice(&o);
    let l = match (at, j.want(f1, ja)) {
        (Some(p), Some((t, _))) => (p + len).min(t).saturating_sub(p),
        _ => len,
    };
    let ga = ga
        && match (&rec.op, j.refs.get(&ja)) {
            (Op::Dual { d, .. }, Some(x)) => x.d.get(na..na + l) == Some(&d.0[..]),
            (Op::DualB { .. }, Some(_)) => at == Some(na),
            _ => false,
        };
    let piece: Vec<u8> = match &rec.op {
        Op::Dual { d, .. } => d.0.clone(),
        _ => o,
    };
    let gm = gm && j.refs.get(&jm).map(|x| x.d.get(nm..nm + piece.len()) == Some(&piece[..])).unwrap_or(false);
    if ga && fl == 0 {
        if let Some((_, Some(w))) = j.want(f1, ja) {
            if !w.starts_with(&oa) {
                return bad("wrong-output", format!("a {what} at {na} gave bytes that differ from the one-shot result"));
            }
        }
    }
    let _ = um;
    j.st.insert((s, f1), St::Act { job: ja, n: na + l, good: ga, used: true, out: oa });
    j.st.insert((s, f2), St::Act { job: jm, n: nm + piece.len(), good: gm, used: true, out: om });
    Ok(())
}

#[derive(Clone, Debug)]
pub struct Job {
    pub id: i64,
    pub f: Fun,
    pub m: Mech,
    pub o: V,
    /// input, except for decryption
    pub d: Hx,
    /// result of the one-shot: input of decryption, signature to verify
    pub blob: V,
    pub flags: i64,
    pub flip: u32,
}

const REF: i64 = 1 << 20;
/// tag of a reference computation: REF + job; any other op: job

#[derive(Clone, Debug, Default)]
enum St {
    #[default]
    None,
    Act {
        job: i64,
        /// number of bytes fed
        n: usize,
        /// they were the job's, in order
        good: bool,
        used: bool,
        out: Vec<u8>,
    },
    /// nobody can tell
    Unk,
}

fn fun_name(f: Fun) -> &'static str {
    match f {
        Fun::Enc => "encryption",
        Fun::Dec => "decryption",
        Fun::Dig => "digest",
        Fun::Sig => "signature",
        Fun::Ver => "verification",
    }
}

fn cancel_flag(f: Fun) -> u64 {
    match f {
        Fun::Enc => CKF_ENCRYPT,
        Fun::Dec => CKF_DECRYPT,
        Fun::Dig => CKF_DIGEST,
        Fun::Sig => CKF_SIGN,
        Fun::Ver => CKF_VERIFY,
    }
}

struct Ref {
    f: Fun,
    out: Vec<u8>,
    d: Vec<u8>,
}

struct J<'a> {
    p: &'a Plan,
    refs: HashMap<i64, Ref>,
    st: HashMap<(V, Fun), St>,
    
}

impl J<'_> {
    fn flags(&self, job: i64) -> i64 {
        self.p.knobs.get(&format!("job{job}")).copied().unwrap_or(0)
    }
    /// whole input and expected output
    fn want(&self, f: Fun, job: i64) -> Option<(usize, Option<&[u8]>)> {
        let r = self.refs.get(&job)?;
        Some(match f {
            Fun::Enc | Fun::Dig | Fun::Sig => {
                (r.d.len(), if self.flags(job) & RANDOM != 0 { None } else { Some(&r.out) })
            }
            Fun::Dec => (r.out.len(), Some(&r.d)),
            Fun::Ver => (r.d.len(), None),
        })
    }
}

pub fn judge_ops(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    let mut n = 0;
    for (k, i) in out.incs.iter().enumerate() {
        let mut j = J { p, refs: HashMap::new(), st: HashMap::new() };
        for c in i.calls() {
            let Some(r) = &c.res else { continue };
            if r.rv == SKIP {
                continue;
            }
            if r.n.contains(&0xdead) {
                return vec![Viol { sig: "overrun".into(), detail: format!("op{} wrote beyond the buffer it was given", c.id) }];
            }
            n += 1;
            if let Err((sig, d)) = step(&mut j, ops[&c.id], r, c.fault) {
                return vec![Viol { sig, detail: format!("incarnation {k}, op{} of client {}: {d}", c.id, c.c) }];
            }
        }
    }
    st.nontrivial = n > 10;
    vec![]
}

/// (session, function, bytes fed, whole input at once?, ends?)
enum Kind {
    Upd(usize),
    One(usize),
    Fin,
}

fn step(j: &mut J, rec: &OpRec, r: &Res, fault: bool) -> Result<(), (String, String)> {
    let bad = |s: &str, d: String| Err((s.to_string(), d));
    let job = rec.tag & (REF - 1);
    let is_ref = rec.tag & REF != 0;
    let (s, f, kind, b, blob_range) = match &rec.op {
        Op::KInit { s, f, .. } => {
            let fl = if is_ref { 0 } else { j.flags(job) };
            let cur = j.st.entry((*s, *f)).or_default();
            match cur {
                St::None => {
                    if r.rv == ACTIVE {
                        return bad("stuck", format!("no {} is active, yet one cannot be started: 0x{:x}", fun_name(*f), r.rv));
                    }
                    if r.rv != OK && !fault && fl & ANY == 0 {
                        return bad("init-refused", format!("starting a {} failed with 0x{:x}", fun_name(*f), r.rv));
                    }
                    if r.rv == OK {
                        *cur = St::Act { job, n: 0, good: true, used: false, out: vec![] };
                    }
                }
                St::Act { .. } => {
                    if r.rv == OK {
                        return bad("init-over", format!("a second {} was started over an active one", fun_name(*f)));
                    }
                    if r.rv != ACTIVE && !fault {
                        return bad("init-over", format!("starting a second {} gave 0x{:x}", fun_name(*f), r.rv));
                    }
                }
                St::Unk => {
                    if r.rv == OK {
                        *cur = St::Act { job, n: 0, good: true, used: false, out: vec![] };
                    } else if r.rv != ACTIVE {
                        *cur = St::None;
                    }
                }
            }
            return Ok(());
        }
        Op::Cancel { s, flags } => {
            for f in [Fun::Enc, Fun::Dec, Fun::Dig, Fun::Sig, Fun::Ver] {
                if flags & cancel_flag(f) != 0 {
                    if r.rv == OK {
                        j.st.insert((*s, f), St::None);
                    } else if matches!(j.st.get(&(*s, f)), Some(St::Act { .. })) {
                        return bad("cancel", format!("cancelling an active {} failed with 0x{:x}", fun_name(f), r.rv));
                    }
                }
            }
            return Ok(());
        }
        Op::KUpd { s, f, d, b } => (*s, *f, Kind::Upd(d.0.len()), *b, None),
        Op::KUpdB { s, f, v: _, at, n, flip: _, b } => {
            let total = j.want(*f, job).map(|w| w.0);
            let e = (*at as usize).saturating_add(*n as usize);
            let l = match total {
                Some(t) => e.min(t).saturating_sub(*at as usize),
                None => *n as usize,
            };
            (*s, *f, Kind::Upd(l), *b, Some(*at as usize))
        }
        Op::KOne { s, f, d, .. } | Op::KSave { s, f, d, .. } => (*s, *f, Kind::One(d.0.len()), b_of(&rec.op), None),
        Op::KOneB { s, f, d, b, .. } => {
            let l = if *f == Fun::Ver { d.0.len() } else { j.want(*f, job).map(|w| w.0).unwrap_or(0) };
            (*s, *f, Kind::One(l), *b, None)
        }
        Op::KFin { s, f, b, .. } | Op::KFinS { s, f, b, .. } => (*s, *f, Kind::Fin, *b, None),
        Op::KFinB { s, .. } => (*s, Fun::Ver, Kind::Fin, Buf::Big, None),
        Op::Dual { .. } | Op::DualB { .. } => return step_dual(j, rec, r, fault),
        _ => return Ok(()),
    };
    let _ = blob_range;
    let key = (s, f);
    let cur = j.st.get(&key).cloned().unwrap_or_default();
    let what = fun_name(f);
    let St::Act { job: aj, n, good, used, out } = cur else {
        if let St::None = cur {
            if r.rv == OK || r.out.is_some() {
                return bad("answers", format!("a {what} that is not active answered"));
            }
            if r.rv != NOTINIT && !fault {
                return bad("answers", format!("a {what} that is not active gave 0x{:x}", r.rv));
            }
        } else if matches!(kind, Kind::One(_) | Kind::Fin) && r.rv == OK && r.out.is_some() {
            j.st.insert(key, St::None);
        }
        return Ok(());
    };
    let fl = if is_ref { 0 } else { j.flags(aj) };
    let same = aj == job || rec.tag == 0;
    let querying = b == Buf::Query && !matches!(f, Fun::Ver) && !(matches!(kind, Kind::Upd(_)) && matches!(f, Fun::Dig | Fun::Sig));
    // what the call has to do with the buffer
    let outputs = match kind {
        Kind::Upd(_) => matches!(f, Fun::Enc | Fun::Dec),
        _ => f != Fun::Ver,
    };
    if !same {
        // input meant for another job: no expectation
        j.st.insert(key, St::Unk);
        return Ok(());
    }
    let good = good
        && match (&rec.op, j.refs.get(&aj)) {
            (Op::KUpd { d, .. }, Some(x)) if f != Fun::Dec => x.d.get(n..n + d.0.len()) == Some(&d.0[..]),
            (Op::KUpdB { at, .. }, Some(_)) => *at as usize == n,
            (Op::KOne { d, .. }, Some(x)) => x.d == d.0,
            (Op::KOneB { d, .. }, Some(x)) if f == Fun::Ver => x.d == d.0,
            (Op::KOneB { .. }, Some(_)) => true,
            (Op::KFin { .. } | Op::KFinB { .. } | Op::KFinS { .. }, _) => true,
            (Op::KSave { .. }, _) => true,
            _ => false,
        };
    let fedlen: usize = n;
    let mixed = matches!(kind, Kind::One(_)) && used;
    if querying {
        if r.rv != OK {
            let early = matches!(kind, Kind::Fin) && j.want(f, aj).map(|w| w.0) != Some(n);
            if mixed || early || fl & (BAD | ANY) != 0 || fl & ONESHOT != 0 && !matches!(kind, Kind::One(_)) || fault {
                j.st.insert(key, St::Unk);
                return Ok(());
            }
            return bad("query", format!("asking a {what} for the length failed with 0x{:x}", r.rv));
        }
        return Ok(());
    }
    if fl & ONESHOT != 0 && !matches!(kind, Kind::One(_)) && r.rv != OK {
        j.st.insert(key, St::None);
        return Ok(());
    }
    if r.rv == NOTINIT && !mixed {
        return bad("lost", format!("an active {what} is gone: 0x{:x}", r.rv));
    }
    if mixed {
        j.st.insert(key, St::Unk);
        return Ok(());
    }
    if outputs && r.rv == SHORT {
        return match b {
            Buf::Exact => bad("query", format!("a {what} said it needs {} bytes, which then were not enough", r.n.first().unwrap_or(&0))),
            Buf::Len(_) => Ok(()),
            _ => bad("too-small", format!("64 KiB are too small for a {what}")),
        };
    }
    if let (Buf::Retry(k), true, Some((_, Some(w)))) = (b, r.n.contains(&0x5407), j.want(f, aj)) {
        // never refuse what is enough for all there is, and blocks to spare
        if k as usize >= w.len() + 32 {
            return bad("too-small", format!("{k} bytes are too small for a {what} of {} in all", w.len()));
        }
    }
    if r.rv != OK {
        j.st.insert(key, St::None);
        if fault || fl & (BAD | ANY) != 0 || !good {
            return Ok(());
        }
        if f == Fun::Dec || f == Fun::Enc {
            if let (Kind::Fin, Some((t, _))) = (&kind, j.want(f, aj)) {
                if fedlen != t {
                    // ended before all was fed
                    return Ok(());
                }
            }
        }
        if fl & ONESHOT != 0 && !matches!(kind, Kind::One(_)) {
            return Ok(());
        }
        if fl & WHOLE != 0 && matches!(kind, Kind::Upd(l) if Some(l) != j.want(f, aj).map(|w| w.0)) {
            return Ok(());
        }
        if f == Fun::Ver && matches!(kind, Kind::Fin) {
            if let Some((t, _)) = j.want(f, aj) {
                if fedlen != t {
                    return Ok(());
                }
            }
        }
        return bad("failed", format!("a {what} failed with 0x{:x}", r.rv));
    }
    // success
    let mut n = n;
    let mut out = out;
    match kind {
        Kind::Upd(l) => {
            n += l;
        }
        Kind::One(l) => n += l,
        Kind::Fin => {}
    }
    if let (true, Some(o)) = (outputs, &r.out) {
        out.extend_from_slice(&o.0);
    }
    let ended = !matches!(kind, Kind::Upd(_));
    if is_ref && ended {
        let d = match &rec.op {
            Op::KSave { d, .. } => d.0.clone(),
            _ => vec![],
        };
        j.refs.insert(aj, Ref { f, out: out.clone(), d });
    }
    if fl & BAD != 0 && ended && n > 0 && good {
        if let Some((t, _)) = j.want(f, aj) {
            if n >= t {
                return bad("accepted", format!("a {what} of damaged input succeeded"));
            }
        }
    }
    if fl & (BAD | ANY) == 0 && good {
        let refs_ok = j.refs.get(&aj).map(|x| (x.f == f) || matches!(f, Fun::Dec | Fun::Ver)).unwrap_or(false);
        if let (true, Some((t, w))) = (refs_ok, j.want(f, aj)) {
            if let (Some(w), true) = (w, !ended && matches!(f, Fun::Enc | Fun::Dec)) {
                if !w.starts_with(&out) {
                    return bad("wrong-output", format!("a {what} fed {} bytes gave {} bytes that differ from the one-shot result", n, out.len()));
                }
            }
            if ended && n == t {
                if let Some(w) = w {
                    if w != out.as_slice() {
                        return bad("wrong-output", format!("a {what} of {n} bytes gave {} bytes instead of the {} of the one-shot call", out.len(), w.len()));
                    }
                }
            }
            let sealed = f == Fun::Dec && fl & SEALED != 0;
            if ended && n != t && (f == Fun::Ver || sealed) && t > 0 {
                return bad("accepted", format!("a {what} of {n} bytes succeeded with the signature of {t}"));
            }
        }
    }
    if ended {
        j.st.insert(key, St::None);
    } else {
        j.st.insert(key, St::Act { job: aj, n, good, used: true, out });
    }
    Ok(())
}

fn b_of(op: &Op) -> Buf {
    match op {
        Op::KOne { b, .. } => *b,
        _ => Buf::Big,
    }
}

// ------------------------------------------------------------- generator

/// keys of a plan
pub struct Keys {
    aes: V,
    gen_: V,
    rsa: V,
    rsapub: V,
    ec: V,
    ecpub: V,
}

pub fn rsa_pub(k: usize, label: &str) -> Tmpl {
    vec![
        (CKA_TOKEN, AV::B(false)),
        (CKA_PRIVATE, AV::B(false)),
        (CKA_LABEL, x(label)),
        (CKA_CLASS, AV::U(CKO_PUBLIC_KEY)),
        (CKA_KEY_TYPE, AV::U(CKK_RSA)),
        (CKA_MODULUS, xb(&unhex(crate::keys::RSA[k][0]).unwrap())),
        (CKA_PUBLIC_EXPONENT, xb(&[1, 0, 1])),
        (CKA_VERIFY, AV::B(true)),
        (CKA_ENCRYPT, AV::B(true)),
    ]
}
pub fn rsa_priv(k: usize, token: bool, label: &str) -> Tmpl {
    let mut t: Tmpl = vec![
        (CKA_TOKEN, AV::B(token)),
        (CKA_PRIVATE, AV::B(true)),
        (CKA_LABEL, x(label)),
        (CKA_CLASS, AV::U(CKO_PRIVATE_KEY)),
        (CKA_KEY_TYPE, AV::U(CKK_RSA)),
        (CKA_PUBLIC_EXPONENT, xb(&[1, 0, 1])),
        (CKA_SIGN, AV::B(true)),
        (CKA_DECRYPT, AV::B(true)),
    ];
    for (a, v) in [CKA_MODULUS, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT]
        .iter()
        .zip(&crate::keys::RSA[k])
    {
        t.push((*a, xb(&unhex(v).unwrap())));
    }
    t
}

/// makes the keys the jobs use
pub fn keys(g: &mut G, s: V, pre: &mut Vec<OpRec>) -> Keys {
    let token = g.pct(40);
    let (aes, gen_, rsa, rsapub, ec, ecpub) = (g.v(), g.v(), g.v(), g.v(), g.v(), g.v());
    let n = *g.r.pick(&[16usize, 24, 32]);
    let v = g.r.bytes(n);
    let mut t = g.base(token, true, "aes");
    t.extend([
        (CKA_CLASS, AV::U(CKO_SECRET_KEY)),
        (CKA_KEY_TYPE, AV::U(CKK_AES)),
        (CKA_VALUE, xb(&v)),
    ]);
    for a in [CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY] {
        t.push((a, AV::B(true)));
    }
    pre.push(g.op(Op::Create { s, o: aes, t }));
    let n = match g.r.below(4) {
        0 => 64 + g.r.idx(140),
        _ => 16 + g.r.idx(50),
    };
    let v = g.r.bytes(n);
    let mut t = g.base(token, true, "gen");
    t.extend([
        (CKA_CLASS, AV::U(CKO_SECRET_KEY)),
        (CKA_KEY_TYPE, AV::U(CKK_GENERIC_SECRET)),
        (CKA_VALUE, xb(&v)),
        (CKA_SIGN, AV::B(true)),
        (CKA_VERIFY, AV::B(true)),
    ]);
    pre.push(g.op(Op::Create { s, o: gen_, t }));
    let k = g.r.idx(crate::keys::RSA.len());
    pre.push(g.op(Op::Create { s, o: rsa, t: rsa_priv(k, token, "rsa") }));
    pre.push(g.op(Op::Create { s, o: rsapub, t: rsa_pub(k, "rsapub") }));
    let mut t = g.base(false, false, "ecpub");
    t.push((CKA_EC_PARAMS, xb(P256)));
    t.push((CKA_VERIFY, AV::B(true)));
    let mut t2 = g.base(token, true, "ec");
    t2.push((CKA_SIGN, AV::B(true)));
    pre.push(g.op(Op::GenPair { s, o: ecpub, o2: ec, m: m(CKM_EC_KEY_PAIR_GEN), t, t2 }));
    Keys { aes, gen_, rsa, rsapub, ec, ecpub }
}

const DIGESTS: &[(u64, u64)] = &[
    (CKM_SHA_1, 20),
    (CKM_SHA224, 28),
    (CKM_SHA256, 32),
    (CKM_SHA384, 48),
    (CKM_SHA512, 64),
    (CKM_SHA3_224, 28),
    (CKM_SHA3_256, 32),
    (CKM_SHA3_384, 48),
    (CKM_SHA3_512, 64),
];
const HMACS: &[(u64, u64, u64)] = &[
    (CKM_SHA_1_HMAC, CKM_SHA_1_HMAC_GENERAL, 20),
    (CKM_SHA224_HMAC, CKM_SHA224_HMAC_GENERAL, 28),
    (CKM_SHA256_HMAC, CKM_SHA256_HMAC_GENERAL, 32),
    (CKM_SHA384_HMAC, CKM_SHA384_HMAC_GENERAL, 48),
    (CKM_SHA512_HMAC, CKM_SHA512_HMAC_GENERAL, 64),
    (CKM_SHA3_256_HMAC, CKM_SHA3_256_HMAC_GENERAL, 32),
    (CKM_SHA3_512_HMAC, CKM_SHA3_512_HMAC_GENERAL, 64),
];

fn sizes(g: &mut G) -> usize {
    match g.r.below(6) {
        0 => g.r.idx(17),
        1 => 16 * g.r.idx(8),
        2 => 60 + g.r.idx(10) + 64 * g.r.idx(3),
        3 => g.r.idx(100),
        4 => g.r.idx(1000),
        _ => 1 + g.r.idx(48),
    }
}

/// a symmetric cipher with parameters that suit n bytes
fn cipher(g: &mut G, n: &mut usize) -> (Mech, i64) {
    let iv = Hx(g.r.bytes(16));
    match g.r.below(12) {
        0 => {
            *n = *n / 16 * 16;
            (Mech { m: CKM_AES_ECB, p: Par::None }, 0)
        }
        1 => {
            *n = *n / 16 * 16;
            (Mech { m: CKM_AES_CBC, p: Par::Raw(iv) }, 0)
        }
        2 | 3 => (Mech { m: CKM_AES_CBC_PAD, p: Par::Raw(iv) }, 0),
        4 => {
            // sometimes with little room for the counter
            let mut cb = iv;
            let bits = if g.pct(50) {
                128
            } else {
                let bits = 8 + g.r.below(25);
                let blocks = (*n as u64).div_ceil(16) + 2 + g.r.below(3);
                if blocks < 1 << bits {
                    let start = (1u64 << bits) - blocks;
                    let mut w = u32::from_be_bytes(cb.0[12..].try_into().unwrap()) as u64;
                    w = w >> bits << bits | start;
                    cb.0[12..].copy_from_slice(&(w as u32).to_be_bytes());
                }
                bits
            };
            (Mech { m: CKM_AES_CTR, p: Par::Ctr { bits, cb } }, 0)
        }
        5 | 6 => {
            let ivn = *g.r.pick(&[12usize, 12, 16, 8]);
            let (iv, an) = (Hx(g.r.bytes(ivn)), g.r.idx(40));
            let aad = Hx(g.r.bytes(an));
            let taglen = *g.r.pick(&[16u64, 16, 12]);
            (Mech { m: CKM_AES_GCM, p: Par::Gcm { iv, aad, taglen } }, SEALED)
        }
        7 => {
            *n = (*n).max(1);
            let nn = 7 + g.r.idx(7);
            let (nonce, an) = (Hx(g.r.bytes(nn)), g.r.idx(40));
            let aad = Hx(g.r.bytes(an));
            let maclen = *g.r.pick(&[16u64, 8, 12]);
            (Mech { m: CKM_AES_CCM, p: Par::Ccm { len: *n as u64, nonce, aad, maclen } }, SEALED)
        }
        8 => {
            *n = (*n).max(16);
            (Mech { m: CKM_AES_CTS, p: Par::Raw(iv) }, WHOLE)
        }
        9 => (Mech { m: CKM_AES_OFB, p: Par::Raw(iv) }, 0),
        10 => {
            let kwp = g.pct(50);
            *n = if kwp { (*n).max(1) } else { (*n).max(16) / 8 * 8 };
            let l = if kwp { 4 } else { 8 };
            let p = if g.pct(40) { Par::Raw(Hx(g.r.bytes(l))) } else { Par::None };
            (Mech { m: if kwp { CKM_AES_KEY_WRAP_KWP } else { CKM_AES_KEY_WRAP }, p }, WHOLE)
        }
        _ => {
            let m = *g.r.pick(&[CKM_AES_CFB8, CKM_AES_CFB128]);
            (Mech { m, p: Par::Raw(iv) }, 0)
        }
    }
}

fn signer(g: &mut G, k: &Keys) -> (Mech, V, V, i64) {
    match g.r.below(12) {
        0..=4 => {
            let h = *g.r.pick(HMACS);
            if g.pct(40) {
                let l = 1 + g.r.below(h.2);
                (Mech { m: h.1, p: Par::Ulong(l) }, k.gen_, k.gen_, 0)
            } else {
                (m(h.0), k.gen_, k.gen_, 0)
            }
        }
        5 => {
            if g.pct(40) {
                let l = 1 + g.r.below(16);
                (Mech { m: CKM_AES_MAC_GENERAL, p: Par::Ulong(l) }, k.aes, k.aes, 0)
            } else {
                (m(CKM_AES_MAC), k.aes, k.aes, 0)
            }
        }
        6 => {
            if g.pct(40) {
                let l = 1 + g.r.below(16);
                (Mech { m: CKM_AES_CMAC_GENERAL, p: Par::Ulong(l) }, k.aes, k.aes, 0)
            } else {
                (m(CKM_AES_CMAC), k.aes, k.aes, 0)
            }
        }
        7 | 8 => {
            let h = *g.r.pick(&[CKM_SHA1_RSA_PKCS, CKM_SHA256_RSA_PKCS, CKM_SHA512_RSA_PKCS, CKM_SHA384_RSA_PKCS]);
            (m(h), k.rsa, k.rsapub, 0)
        }
        9 => {
            let (mm, hash, mgf) = *g.r.pick(&[
                (CKM_SHA256_RSA_PKCS_PSS, CKM_SHA256, CKG_MGF1_SHA256),
                (CKM_SHA1_RSA_PKCS_PSS, CKM_SHA_1, CKG_MGF1_SHA1),
            ]);
            (Mech { m: mm, p: Par::Pss { hash, mgf, salt: 20 } }, k.rsa, k.rsapub, RANDOM)
        }
        10 => {
            let mm = *g.r.pick(&[CKM_ECDSA_SHA256, CKM_ECDSA_SHA1, CKM_ECDSA_SHA512]);
            (m(mm), k.ec, k.ecpub, RANDOM)
        }
        _ => {
            if g.pct(50) {
                (m(CKM_RSA_PKCS), k.rsa, k.rsapub, ONESHOT)
            } else {
                (m(CKM_ECDSA), k.ec, k.ecpub, ONESHOT | RANDOM)
            }
        }
    }
}

/// what the jobs are chosen from
#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
    All,
    /// digests and HMACs
    Hash,
}

/// adds jobs and the computation of their references; `badpct`: share of
/// jobs with damaged input
pub fn jobs(g: &mut G, s: V, k: &Keys, pre: &mut Vec<OpRec>, n: u64, badpct: u64, mix: Mix) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    for id in 1..=n as i64 {
        let mut len = sizes(g);
        let fam = if mix == Mix::Hash { g.r.below(4) } else { g.r.below(10) };
        let (f, mech, o, o2, mut flags) = match fam {
            0 | 1 => (Fun::Dig, m(g.r.pick(DIGESTS).0), 0, 0, 0),
            2..=4 => {
                let f = if g.pct(55) { Fun::Sig } else { Fun::Ver };
                let (mm, a, b, fl) = loop {
                    let x = signer(g, k);
                    if mix == Mix::All || x.1 == k.gen_ {
                        break x;
                    }
                };
                if fl & ONESHOT != 0 {
                    len = len.min(32).max(20);
                }
                (f, mm, a, b, fl)
            }
            _ => {
                let f = if g.pct(50) { Fun::Enc } else { Fun::Dec };
                if g.pct(10) {
                    len = len.min(60);
                    let mm = if g.pct(50) {
                        m(CKM_RSA_PKCS)
                    } else {
                        Mech { m: CKM_RSA_PKCS_OAEP, p: Par::Oaep { hash: CKM_SHA256, mgf: CKG_MGF1_SHA256 } }
                    };
                    (f, mm, k.rsapub, k.rsa, ONESHOT | RANDOM)
                } else {
                    let (mm, fl) = cipher(g, &mut len);
                    (f, mm, k.aes, k.aes, fl)
                }
            }
        };
        if matches!(mech.m, CKM_RSA_PKCS_OAEP) {
            len = len.min(50);
        }
        let d = Hx(g.r.bytes(len));
        let blob = g.v();
        let rf = match f {
            Fun::Dec => Fun::Enc,
            Fun::Ver => Fun::Sig,
            f => f,
        };
        let mut flip = 0;
        let mut reff = flags;
        if g.pct(badpct) {
            match f {
                Fun::Ver => {
                    flags |= BAD;
                    flip = match g.r.below(5) {
                        0 => u32::MAX,
                        1 => u32::MAX - 1,
                        _ => 1 + g.r.below(100_000) as u32,
                    };
                }
                Fun::Dec if matches!(mech.m, CKM_AES_GCM | CKM_AES_CCM) => {
                    flags |= BAD;
                    flip = if g.pct(25) { u32::MAX } else { 1 + g.r.below(100_000) as u32 };
                }
                Fun::Dec if flags & WHOLE == 0 => {
                    flags |= ANY;
                    flip = if g.pct(50) { u32::MAX - g.r.below(2) as u32 } else { 1 + g.r.below(100_000) as u32 };
                }
                Fun::Enc if matches!(mech.m, CKM_AES_ECB | CKM_AES_CBC) => {
                    // not a whole number of blocks
                    flags |= ANY;
                    reff |= ANY;
                    let n = 1 + g.r.idx(15);
                    let mut b = d.0.clone();
                    b.extend(g.r.bytes(n));
                    v.push(Job { id, f, m: mech.clone(), o, d: Hx(b), blob, flags, flip });
                    g.knob(&format!("job{id}"), flags);
                    continue;
                }
                _ => {}
            }
        }
        let _ = reff;
        // the reference
        let mut a = g.op(Op::KInit { s, f: rf, m: mech.clone(), o: if rf == Fun::Enc || rf == Fun::Sig { o } else { o2 } });
        a.tag = REF | id;
        pre.push(a);
        let mut a = g.op(Op::KSave { s, f: rf, d: d.clone(), v: blob });
        a.tag = REF | id;
        pre.push(a);
        let o = if matches!(f, Fun::Dec | Fun::Ver) { o2 } else { o };
        g.knob(&format!("job{id}"), flags);
        let whole = flags & (WHOLE | ONESHOT | BAD | ANY) != 0 || f == Fun::Dec && mech.m == CKM_AES_CBC_PAD;
        v.push(Job { id, f, m: mech, o, d: d.clone(), blob, flags, flip });
        if matches!(f, Fun::Enc | Fun::Dec) && !whole && g.pct(60) {
            let id = id + MATE;
            let (f2, mech, o, o2, flags) = if g.pct(50) {
                (Fun::Dig, m(g.r.pick(DIGESTS).0), 0, 0, 0)
            } else {
                let (mm, a, b, fl) = loop {
                    let x = signer(g, k);
                    if x.3 & ONESHOT == 0 {
                        break x;
                    }
                };
                (if f == Fun::Enc { Fun::Sig } else { Fun::Ver }, mm, a, b, fl)
            };
            let blob = g.v();
            let rf = if f2 == Fun::Dig { Fun::Dig } else { Fun::Sig };
            let mut a = g.op(Op::KInit { s, f: rf, m: mech.clone(), o });
            a.tag = REF | id;
            pre.push(a);
            let mut a = g.op(Op::KSave { s, f: rf, d: d.clone(), v: blob });
            a.tag = REF | id;
            pre.push(a);
            g.knob(&format!("job{id}"), flags);
            v.push(Job { id, f: f2, m: mech, o: if f2 == Fun::Ver { o2 } else { o }, d, blob, flags, flip: 0 });
        }
    }
    v
}

#[derive(Clone, Copy)]
pub struct Style {
    /// chances in % of: a length query, a short buffer before a call
    query: u64,
    short: u64,
    /// calls out of turn
    wrong: u64,
    /// chance of giving up on an operation half way
    abandon: u64,
    oneshot: u64,
    /// two operations of different kinds at a time in a session
    two: u64,
    /// dual-function calls
    dual: u64,
}

struct Run {
    j: Job,
    at: usize,
    started: bool,
    one: bool,
    done: bool,
    /// dropped after this many bytes
    stop: usize,
}

fn total(j: &Job) -> usize {
    match (j.f, &j.m.m) {
        (Fun::Dec, _) => {
            let n = j.d.0.len();
            let extra = match &j.m.p {
                Par::Gcm { taglen, .. } => *taglen as usize,
                Par::Ccm { maclen, .. } => *maclen as usize,
                _ if j.m.m == CKM_AES_CBC_PAD => 16 - n % 16,
                _ if j.m.m == CKM_AES_KEY_WRAP => 8,
                _ if j.m.m == CKM_AES_KEY_WRAP_KWP => 8 + (8 - n % 8) % 8,
                _ => 0,
            };
            n + extra
        }
        _ => j.d.0.len(),
    }
}

fn outbuf(g: &mut G) -> Buf {
    match g.r.below(10) {
        0..=3 => Buf::Exact,
        _ => Buf::Big,
    }
}

fn tag(mut o: OpRec, j: &Job) -> OpRec {
    o.tag = j.id;
    o
}

fn one_op(j: &Job, s: V, b: Buf) -> Op {
    match j.f {
        Fun::Dec | Fun::Ver => Op::KOneB { s, f: j.f, d: j.d.clone(), v: j.blob, flip: j.flip, b },
        f => Op::KOne { s, f, d: j.d.clone(), sig: Hx::default(), b },
    }
}
fn upd_op(j: &Job, s: V, at: usize, n: usize, b: Buf) -> Op {
    match j.f {
        Fun::Dec => Op::KUpdB { s, f: j.f, v: j.blob, at: at as u32, n: n as u32, flip: j.flip, b },
        f => Op::KUpd { s, f, d: Hx(j.d.0[at..at + n].to_vec()), b },
    }
}
fn fin_op(j: &Job, s: V, b: Buf) -> Op {
    match j.f {
        Fun::Ver => Op::KFinB { s, v: j.blob, flip: j.flip },
        f => Op::KFin { s, f, sig: Hx::default(), b },
    }
}

const MATE: i64 = 100;

/// an encryption or decryption along with a digest, signature or
/// verification of the same data
fn pair(g: &mut G, s: V, j: &Job, m: &Job, st: &Style) -> Vec<OpRec> {
    let mut v = vec![];
    for x in if g.pct(50) { [j, m] } else { [m, j] } {
        if g.pct(st.wrong / 3) {
            continue;
        }
        v.push(tag(g.op(Op::KInit { s, f: x.f, m: x.m.clone(), o: x.o }), x));
    }
    let k = match (j.f, m.f) {
        (Fun::Enc, Fun::Dig) => 0,
        (Fun::Dec, Fun::Dig) => 1,
        (Fun::Enc, _) => 2,
        _ => 3,
    };
    let t = total(j);
    let mut at = 0;
    loop {
        let rest = t - at;
        let n = match g.r.below(5) {
            0 => rest,
            1 => rest.min(16),
            2 => 0,
            _ => rest.min(1 + g.r.idx(40)),
        };
        let mk = |b: Buf| match j.f {
            Fun::Dec => Op::DualB { s, k, v: j.blob, at: at as u32, n: n as u32, b },
            _ => Op::Dual { s, k, d: Hx(j.d.0[at..at + n].to_vec()), b },
        };
        if j.f == Fun::Enc && g.pct(30) {
            // one after the other
            let b = outbuf(g);
            let o1 = tag(g.op(upd_op(j, s, at, n, b)), j);
            let d = Hx(j.d.0[at..at + n].to_vec());
            let o2 = tag(g.op(Op::KUpd { s, f: m.f, d, b: Buf::Big }), m);
            v.extend(if g.pct(50) { [o1, o2] } else { [o2, o1] });
        } else {
            if g.pct(st.query) {
                v.push(tag(g.op(mk(Buf::Query)), j));
            }
            let b = if g.pct(st.short) { Buf::Retry(g.r.idx(n + 8) as u32) } else { outbuf(g) };
            v.push(tag(g.op(mk(b)), j));
        }
        at += n;
        if at >= t && g.pct(80) {
            break;
        }
    }
    for x in if g.pct(50) { [j, m] } else { [m, j] } {
        let b = outbuf(g);
        v.push(tag(g.op(fin_op(x, s, b)), x));
    }
    v
}

/// one client's calls in session s
fn client(g: &mut G, s: V, js: &[Job], st: &Style, njobs: usize) -> Vec<OpRec> {
    let mut v: Vec<OpRec> = vec![];
    let mut act: Vec<Run> = vec![];
    let mut left = njobs;
    let mut guard = 0;
    while (left > 0 || !act.is_empty()) && guard < 400 {
        guard += 1;
        if act.is_empty() || left > 0 && act.len() < 3 && g.pct(st.two) {
            if left == 0 {
                continue;
            }
            left -= 1;
            let j = g.r.pick(js).clone();
            if act.is_empty() && matches!(j.f, Fun::Enc | Fun::Dec) && g.pct(40) {
                if let Some(m) = js.iter().find(|x| x.id == j.id + MATE) {
                    v.extend(pair(g, s, &j, &m.clone(), st));
                    continue;
                }
            }
            if act.iter().any(|a| a.j.f == j.f) {
                continue;
            }
            let one = j.flags & ONESHOT != 0 || g.pct(st.oneshot);
            let t = total(&j);
            let stop = if g.pct(st.abandon) { g.r.idx(t + 1) } else { usize::MAX };
            act.push(Run { j, at: 0, started: false, one, done: false, stop });
        }
        let i = g.r.idx(act.len());
        let mut r = act.swap_remove(i);
        let j = r.j.clone();
        // something out of turn
        if g.pct(st.wrong) {
            let d = Hx(g.r.bytes(16));
            let op = match g.r.below(5) {
                0 if r.started => {
                    let o = js.iter().find(|x| x.f == j.f).unwrap();
                    let op = Op::KInit { s, f: o.f, m: o.m.clone(), o: o.o };
                    Some(tag(g.op(op), &o.clone()))
                }
                1 if !r.started => Some(tag(g.op(fin_op(&j, s, Buf::Big)), &j)),
                2 if !r.started => {
                    let n = total(&j).min(16);
                    Some(tag(g.op(upd_op(&j, s, 0, n.min(j.d.0.len()), Buf::Big)), &j))
                }
                3 if !r.started => Some(tag(g.op(one_op(&j, s, Buf::Big)), &j)),
                4 => {
                    // a kind of operation nothing has been started for
                    let f = *g.r.pick(&[Fun::Enc, Fun::Dec, Fun::Dig, Fun::Sig, Fun::Ver]);
                    if f == j.f || act.iter().any(|a| a.j.f == f) {
                        None
                    } else {
                        Some(g.op(Op::KUpd { s, f, d, b: Buf::Big }))
                    }
                }
                _ => None,
            };
            if let Some(o) = op {
                v.push(o);
            }
        }
        if !r.started {
            r.started = true;
            v.push(tag(g.op(Op::KInit { s, f: j.f, m: j.m.clone(), o: j.o }), &j));
            act.push(r);
            continue;
        }
        if r.at >= r.stop {
            if g.pct(70) {
                v.push(tag(g.op(Op::Cancel { s, flags: cancel_flag(j.f) }), &j));
            } else {
                // ended early by a null mechanism would do as well: finish instead
                v.push(tag(g.op(fin_op(&j, s, Buf::Big)), &j));
                v.push(tag(g.op(Op::Cancel { s, flags: cancel_flag(j.f) }), &j));
            }
            continue;
        }
        let t = total(&j);
        let mk = |g: &mut G, b: Buf, r: &Run, n: usize| -> OpRec {
            let op = if r.one {
                one_op(&j, s, b)
            } else if r.at >= t && r.done {
                fin_op(&j, s, b)
            } else {
                upd_op(&j, s, r.at, n, b)
            };
            tag(g.op(op), &j)
        };
        let n = if r.one {
            t
        } else if j.flags & WHOLE != 0 {
            t
        } else {
            let rest = t - r.at;
            match g.r.below(7) {
                0 => rest,
                1 => rest.min(16),
                2 => rest.min(1),
                3 => rest.min(16 * (1 + g.r.idx(4))),
                4 => 0,
                _ => rest.min(1 + g.r.idx(40)),
            }
        };
        if !r.one && r.at >= t {
            r.done = true;
        }
        if j.f != Fun::Ver {
            let mut k = 0;
            while k < 3 && g.pct(st.query) {
                let o = mk(g, Buf::Query, &r, n);
                v.push(o);
                k += 1;
            }
        }
        let b = if g.pct(st.short) {
            let l = match g.r.below(5) {
                0 => 0,
                1 => n.saturating_sub(1 + g.r.idx(3)),
                2 => n + g.r.idx(8),
                3 => g.r.idx(16),
                _ => g.r.idx(t + 20),
            };
            Buf::Retry(l as u32)
        } else {
            outbuf(g)
        };
        let o = mk(g, b, &r, n);
        let ended = matches!(o.op, Op::KOne { .. } | Op::KOneB { .. } | Op::KFin { .. } | Op::KFinB { .. } | Op::KFinS { .. });
        v.push(o);
        if ended {
            if g.pct(st.wrong) {
                // once more, after the end
                let o = mk(g, Buf::Big, &r, n);
                v.push(o);
            }
            continue;
        }
        r.at += n;
        if r.at >= t && (j.flags & WHOLE != 0 || g.pct(80)) {
            r.done = true;
        }
        act.push(r);
    }
    v
}

fn ops(g: &mut G, st: Style, badpct: u64, mix: Mix, ncl: u64, faults: u64) {
    let conf = if g.pct(85) { "sq" } else { "nss" };
    g.p.image = conf.into();
    let (mut pre, s) = g.start(conf, 1, true);
    let k = keys(g, s, &mut pre);
    let nj = 3 + g.r.below(4);
    let js = jobs(g, s, &k, &mut pre, nj, badpct, mix);
    let mut inc = Inc::default();
    let nc = 1 + g.r.below(ncl);
    let mut targets: Vec<(u32, bool)> = vec![];
    for _ in 0..nc {
        let cs = g.v();
        let rw = g.pct(60);
        pre.push(g.op(Op::Open { slot: 1, rw, s: cs }));
        let n = 2 + g.r.idx(if nc > 1 { 3 } else { 6 });
        let v = client(g, cs, &js, &st, n);
        for o in &v {
            match &o.op {
                Op::KInit { .. } => targets.push((o.id, true)),
                Op::KOne { f: Fun::Sig, .. } | Op::KFin { f: Fun::Sig, .. } | Op::KOne { f: Fun::Enc, .. } => targets.push((o.id, false)),
                _ => {}
            }
        }
        inc.clients.push(v);
    }
    inc.pre = pre;
    if g.pct(faults) && !targets.is_empty() {
        for _ in 0..1 + g.r.below(3) {
            let (t, io) = *g.r.pick(&targets);
            let f = if io && g.pct(50) {
                let mut f = g.io_fault(t, "");
                f.io = if g.pct(50) { Io::Read } else { Io::Any };
                f.kind = FaultKind::IoErr;
                f.only = true;
                f
            } else {
                Fault { op: t, io: Io::Rng, nth: g.r.below(2) as u32, kind: FaultKind::RngFail, count: 1 + g.r.below(3) as u32, only: true, file: String::new() }
            };
            inc.faults.push(f);
        }
    }
    inc.sched = if nc > 1 { g.sched(true) } else { SchedSpec { seed: g.r.next(), ..Default::default() } };
    g.p.incs.push(inc);
}

const PARTS: Style = Style { query: 12, short: 0, wrong: 0, abandon: 5, oneshot: 5, two: 30, dual: 12 };
const CALLS: Style = Style { query: 25, short: 30, wrong: 20, abandon: 15, oneshot: 35, two: 25, dual: 8 };

pub fn p16() -> Vec<Scen> {
    vec![
        Scen { name: "parts", weight: 4, gen_: |g| ops(g, PARTS, 0, Mix::All, 1, 0), judge: judge_ops },
        Scen { name: "parts-concurrent", weight: 4, gen_: |g| ops(g, PARTS, 0, Mix::All, 4, 0), judge: judge_ops },
        Scen { name: "hash-concurrent", weight: 2, gen_: |g| ops(g, PARTS, 0, Mix::Hash, 4, 0), judge: judge_ops },
        Scen { weight: 1, ..super::msg::messages() },
    ]
}

pub fn p18() -> Vec<Scen> {
    vec![
        Scen { name: "calls", weight: 5, gen_: |g| ops(g, CALLS, 25, Mix::All, 1, 0), judge: judge_ops },
        Scen { name: "calls-concurrent", weight: 2, gen_: |g| ops(g, CALLS, 20, Mix::All, 3, 0), judge: judge_ops },
        Scen { name: "faults", weight: 3, gen_: |g| ops(g, CALLS, 10, Mix::All, 2, 100), judge: judge_ops },
        Scen { weight: 2, ..super::msg::messages() },
    ]
}
