//! Message-based encryption (P16, P18) and IVs the library makes (P24).
use super::*;
use crate::aes;
use kryoptic_lib::pkcs11::*;
use std::collections::{HashMap, HashSet};

const NOOP: u64 = CKR_OPERATION_NOT_INITIALIZED as u64;
const ACTIVE: u64 = CKR_OPERATION_ACTIVE as u64;
const SHORT: u64 = CKR_BUFFER_TOO_SMALL as u64;

/// what is known of a message
#[derive(Clone, Default)]
struct Msg {
    rec: MsgRec,
    key: usize,
    aad: Vec<u8>,
    data: Vec<u8>,
    par: Option<MsgPar>,
    /// complete, as far as encryption goes
    done: bool,
}

#[derive(Clone, Default, PartialEq, Debug)]
enum St {
    #[default]
    None,
    Idle,
    /// in message v
    Busy(V),
    Any,
}

#[derive(Default, Clone)]
struct Side {
    st: St,
    key: usize,
    /// messages started with an IV of the library, successful ones, and the
    /// IVs of the latter
    tried: u64,
    ivs: HashSet<Vec<u8>>,
    /// is the mechanism CCM
    ccm: bool,
    /// length, fixed bits and generator of the IVs
    cfg: (usize, u64, u64),
}

fn genbits(p: &MsgPar) -> u64 {
    (p.iv.0.len() as u64 * 8).saturating_sub(p.fixed)
}

fn seal(key: &[u8], m: &Msg, d: &[u8], dec: bool) -> (Vec<u8>, Vec<u8>) {
    let p = m.par.as_ref().unwrap();
    if p.ccm {
        let (o, t) = aes::ccm(key, &m.rec.iv, &m.aad, d, p.tag as usize);
        if dec {
            let t = aes::ccm(key, &m.rec.iv, &m.aad, &o, p.tag as usize).1;
            return (o, t);
        }
        (o, t)
    } else {
        let (o, t) = aes::gcm(key, &m.rec.iv, &m.aad, d, dec);
        (o, t[..p.tag as usize].to_vec())
    }
}

fn judge_msg(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    // keys by variable
    let mut keys: Vec<Vec<u8>> = vec![];
    let mut kv: HashMap<V, usize> = HashMap::new();
    let mut ids: Vec<u32> = ops.keys().copied().collect();
    ids.sort();
    for i in ids {
        if let Op::Create { o, t, .. } = &ops[&i].op {
            if let Some(v) = crate::model::tget(t, CKA_VALUE) {
                kv.insert(*o, keys.len());
                keys.push(v);
            }
        }
    }
    let mut random: HashSet<(usize, Vec<u8>)> = HashSet::new();
    for (k, i) in out.incs.iter().enumerate() {
        let mut side: HashMap<(u64, bool), Side> = HashMap::new();
        let mut msgs: HashMap<V, Msg> = HashMap::new();
        for c in i.calls() {
            let Some(r) = &c.res else { continue };
            if r.rv == SKIP {
                continue;
            }
            let at = |sig: &str, d: String| {
                vec![Viol {
                    sig: sig.into(),
                    detail: format!("incarnation {k}: op{} {}: {d}", c.id, lin::short(&ops[&c.id].op)),
                }]
            };
            let rv = r.rv;
            let h = c.vars.first().copied().unwrap_or(0);
            if r.n.contains(&0xdead) {
                return at("overrun", "wrote behind the end of the buffer".into());
            }
            match &ops[&c.id].op {
                Op::MsgInit { f, o, m, .. } => {
                    let s = side.entry((h, *f == Fun::Enc)).or_default();
                    match s.st {
                        St::None if rv == 0 => {}
                        St::None if c.fault => continue,
                        St::None => return at("init", format!("returned 0x{rv:x} with no operation active")),
                        St::Idle | St::Busy(_) if rv == ACTIVE => continue,
                        St::Idle | St::Busy(_) => return at("init-active", format!("returned 0x{rv:x} with an operation active")),
                        St::Any if rv == 0 => {}
                        St::Any => continue,
                    }
                    *s = Side { st: St::Idle, key: kv.get(o).copied().unwrap_or(0), ccm: m.m == CKM_AES_CCM as u64, ..Default::default() };
                }
                Op::Cancel { flags, .. } => {
                    if rv != 0 {
                        return at("cancel", format!("returned 0x{rv:x}"));
                    }
                    for (f, e) in [(CKF_MESSAGE_ENCRYPT, true), (CKF_MESSAGE_DECRYPT, false)] {
                        if flags & f as u64 != 0 {
                            side.entry((h, e)).or_default().st = St::None;
                        }
                    }
                }
                Op::MsgFinal { f, .. } => {
                    let s = side.entry((h, *f == Fun::Enc)).or_default();
                    match s.st {
                        St::None if rv == NOOP => {}
                        St::None => return at("final-none", format!("returned 0x{rv:x} with no operation active")),
                        St::Idle if rv != 0 => return at("final", format!("returned 0x{rv:x}")),
                        St::Busy(_) if rv != 0 && rv != ACTIVE => return at("final", format!("returned 0x{rv:x}")),
                        _ => {}
                    }
                    if rv == 0 {
                        s.st = St::None;
                    }
                }
                Op::Msg { f, how, v, p, aad, d, src, at: from, n, flip, b, .. } => {
                    let enc = *f == Fun::Enc;
                    let s = side.entry((h, enc)).or_default();
                    let whole = matches!(how, 0 | 1);
                    // what a decryption is given
                    let given = if enc {
                        Some((d.0.clone(), vec![]))
                    } else {
                        msgs.get(src).filter(|x| x.done).map(|x| crate::p11::msg_input(&x.rec, *how, *from, *n, *flip))
                    };
                    // a new message takes the place of the old one
                    let was = if whole { msgs.remove(v) } else { msgs.get(v).cloned() };
                    if !enc && *how != 1 && rv == CKR_ARGUMENTS_BAD as u64 && given.as_ref().is_none_or(|x| x.0.is_empty()) {
                        // nothing to decrypt
                        if given.is_none() && s.st != St::None {
                            s.st = St::Any;
                        }
                        continue;
                    }
                    match s.st {
                        St::None if rv != NOOP => {
                            return at("no-operation", format!("returned 0x{rv:x} with no operation active"));
                        }
                        St::Busy(_) if whole && rv != ACTIVE => {
                            return at("message-active", format!("returned 0x{rv:x} in the middle of a message"));
                        }
                        St::Idle if !whole && rv != NOOP => {
                            return at("no-message", format!("returned 0x{rv:x} outside of a message"));
                        }
                        St::None => continue,
                        St::Busy(_) if whole => continue,
                        St::Idle if !whole => continue,
                        St::Any => {
                            // whatever it says, it must not end the search
                            // for repeated IVs
                            if !(rv == 0 && whole && enc) {
                                msgs.remove(v);
                                continue;
                            }
                        }
                        _ => {}
                    }
                    if let St::Busy(w) = s.st {
                        if w != *v {
                            // another message's parameters: no rule
                            s.st = St::Any;
                            msgs.remove(v);
                            continue;
                        }
                    }
                    if whole && enc && s.ccm != p.ccm {
                        s.st = St::Any;
                        continue;
                    }
                    if whole && enc {
                        // a new message
                        let tried = s.tried;
                        let made = p.gen_ != CKG_NO_GENERATE as u64;
                        let query = *how == 0 && *b == Buf::Query;
                        if made && !query {
                            s.tried += 1;
                        }
                        let room = genbits(p) >= 63 || tried < 1 << genbits(p);
                        let ok = if p.ccm { (7..=13).contains(&p.iv.0.len()) && p.tag >= 4 && p.tag % 2 == 0 } else { p.tag >= 1 };
                        let ok = ok
                            && p.tag <= 16
                            && !p.iv.0.is_empty()
                            && p.fixed <= p.iv.0.len() as u64 * 8
                            && (!made || genbits(p) > 0 && room)
                            && (p.gen_ != CKG_GENERATE_RANDOM as u64 || genbits(p) >= 64)
                            && (*how == 1 || !p.ccm || p.len == d.0.len() as u64);
                        let short = match b {
                            Buf::Len(n) if *how == 0 => (*n as usize) < d.0.len(),
                            _ => false,
                        };
                        if query {
                            if rv == 0 && r.n.first().is_some_and(|n| (*n as usize) < d.0.len()) {
                                return at("query", format!("asks for {} bytes, {} are needed", r.n[0], d.0.len()));
                            }
                            if rv != 0 && ok {
                                return at("query", format!("returned 0x{rv:x}"));
                            }
                            let _ = was;
                            continue;
                        }
                        if rv != 0 {
                            if ok && !c.fault && !(short && rv == SHORT) && s.st == St::Idle {
                                return at("failed", format!("returned 0x{rv:x} for no reason"));
                            }
                            if !(ok && short && rv == SHORT) {
                                s.st = St::Any;
                            }
                            continue;
                        }
                        if short {
                            return at("short", "succeeded into a short buffer".into());
                        }
                        let iv = r.a.iter().find(|x| x.0 == 0).and_then(|x| x.1.clone()).unwrap_or_default().0;
                        if made {
                            st.nontrivial = true;
                            let fx = p.fixed.min(p.iv.0.len() as u64 * 8);
                            let had = r.a.iter().find(|x| x.0 == 2).and_then(|x| x.1.clone()).unwrap_or_default().0;
                            for bit in 0..fx {
                                let m = 0x80u8 >> (bit % 8);
                                let x = (bit / 8) as usize;
                                if iv[x] & m != had[x] & m {
                                    return at("fixed-bits", format!("the fixed part of the IV was changed: {} {}", hex(&iv), hex(&had)));
                                }
                            }
                            let rep = if p.gen_ == CKG_GENERATE_RANDOM as u64 {
                                !random.insert((s.key, iv.clone()))
                            } else {
                                // no promise when it changes in between
                                let cfg = (iv.len(), p.fixed, p.gen_);
                                if cfg != s.cfg {
                                    s.cfg = cfg;
                                    s.ivs.clear();
                                }
                                !s.ivs.insert(iv.clone())
                            };
                            if rep {
                                return at("iv-repeated", format!("IV {} was used with this key before", hex(&iv)));
                            }
                        } else if iv != p.iv.0 && !p.keep {
                            return at("iv-changed", "the IV of the caller was changed".into());
                        }
                        let mut m = Msg {
                            rec: MsgRec { iv, ..Default::default() },
                            key: s.key,
                            aad: aad.0.clone(),
                            data: d.0.clone(),
                            par: Some(p.clone()),
                            done: false,
                        };
                        if *how == 0 {
                            let (ct, tag) = seal(&keys[s.key], &m, &d.0, false);
                            let got = r.out.clone().unwrap_or_default().0;
                            let gt = r.a.iter().find(|x| x.0 == 1).and_then(|x| x.1.clone()).unwrap_or_default().0;
                            if got != ct || gt != tag {
                                return at("wrong-result", format!("gave {} {}, {} {} is right", hex(&got), hex(&gt), hex(&ct), hex(&tag)));
                            }
                            m.rec.ct = got;
                            m.rec.tag = gt;
                            m.done = true;
                            s.st = St::Idle;
                        } else {
                            m.data.clear();
                            s.st = St::Busy(*v);
                        }
                        msgs.insert(*v, m);
                        continue;
                    }
                    if s.st == St::Any || s.ccm != p.ccm {
                        s.st = St::Any;
                        continue;
                    }
                    // parts of a message, and decryption
                    let mut m = if whole {
                        let iv = if v == src { was.filter(|x| x.done).map(|x| x.rec.iv) } else { msgs.get(src).map(|x| x.rec.iv.clone()) };
                        let Some(iv) = iv else {
                            s.st = St::Any;
                            continue;
                        };
                        Msg {
                            rec: MsgRec { iv, ..Default::default() },
                            key: s.key,
                            aad: aad.0.clone(),
                            data: vec![],
                            par: Some(p.clone()),
                            done: false,
                        }
                    } else {
                        match was {
                            Some(m) => m,
                            None => {
                                s.st = St::Any;
                                continue;
                            }
                        }
                    };
                    let Some((inp, tag)) = given else {
                        s.st = St::Any;
                        msgs.remove(v);
                        continue;
                    };
                    if s.ccm && !enc && (!(7..=13).contains(&m.rec.iv.len()) || tag.len() < 4 || tag.len() % 2 != 0) {
                        // made with another mechanism
                        s.st = St::Any;
                        msgs.remove(v);
                        continue;
                    }
                    let last = matches!(how, 0 | 3);
                    if *how == 1 {
                        // decryption begins
                        if rv == 0 {
                            msgs.insert(*v, m);
                            s.st = St::Busy(*v);
                        } else {
                            if !c.fault {
                                return at("failed", format!("returned 0x{rv:x} for no reason"));
                            }
                            s.st = St::Any;
                        }
                        continue;
                    }
                    let mut all = m.data.clone();
                    all.extend_from_slice(&inp);
                    if !enc {
                        if let Some(p) = &mut m.par {
                            p.tag = tag.len() as u64;
                        }
                    }
                    let p = m.par.clone().unwrap_or_else(|| p.clone());
                    let fits = !p.ccm || if last { all.len() as u64 == p.len } else { all.len() as u64 <= p.len };
                    let (o, t) = seal(&keys[m.key], &m, &all, !enc);
                    let good = fits && !inp.is_empty() && (enc || !last || t == tag);
                    let want: Vec<u8> = match (p.ccm, last) {
                        (false, _) => o[m.data.len()..].to_vec(),
                        (true, false) => vec![],
                        (true, true) => o.clone(),
                    };
                    let short = matches!(b, Buf::Len(n) if (*n as usize) < want.len());
                    if *b == Buf::Query && !inp.is_empty() {
                        if rv == 0 && r.n.first().is_some_and(|n| (*n as usize) < want.len()) && fits {
                            return at("query", format!("asks for {} bytes, {} are needed", r.n[0], want.len()));
                        }
                        if rv != 0 && fits {
                            return at("query", format!("returned 0x{rv:x}"));
                        }
                        continue;
                    }
                    if rv != 0 {
                        if short && fits && rv == SHORT {
                            continue;
                        }
                        if good && !short && !c.fault {
                            return at("failed", format!("returned 0x{rv:x} for no reason"));
                        }
                        if !inp.is_empty() {
                            s.st = St::Any;
                            msgs.remove(v);
                        }
                        continue;
                    }
                    if short {
                        return at("short", "succeeded into a short buffer".into());
                    }
                    if !enc && last && !good {
                        return at("forged", "damaged data was accepted".into());
                    }
                    if !fits {
                        return at("length", "accepted data of another length than announced".into());
                    }
                    let got = r.out.clone().unwrap_or_default().0;
                    if got != want {
                        return at("wrong-result", format!("gave {}, {} is right", hex(&got), hex(&want)));
                    }
                    m.data = all;
                    m.rec.ct.extend_from_slice(&got);
                    s.st = St::Busy(*v);
                    if last {
                        if enc {
                            let gt = r.a.iter().find(|x| x.0 == 1).and_then(|x| x.1.clone()).unwrap_or_default().0;
                            if gt != t {
                                return at("wrong-result", format!("gave tag {}, {} is right", hex(&gt), hex(&t)));
                            }
                            m.rec.tag = gt;
                            m.done = true;
                        }
                        s.st = St::Idle;
                    }
                    if enc || *how != 0 {
                        msgs.insert(*v, m);
                    }
                }
                _ => {}
            }
        }
    }
    vec![]
}

#[derive(Clone)]
struct Conf {
    ccm: bool,
    ivlen: usize,
    fixed: u64,
    gen_: u64,
    tag: u64,
    base: Vec<u8>,
    keep: bool,
}

fn conf(g: &mut G) -> Conf {
    let ccm = g.pct(35);
    let ivlen = if ccm { 7 + g.r.idx(7) } else { *g.r.pick(&[12usize, 12, 12, 8, 13, 16, 20, 5]) };
    let bits = ivlen as u64 * 8;
    let gen_ = *g.r.pick(&[CKG_NO_GENERATE, CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_COUNTER_XOR, CKG_GENERATE_COUNTER_XOR, CKG_GENERATE_RANDOM]) as u64;
    let fixed = match g.r.below(8) {
        0 => 0,
        1 => bits,
        2 | 3 => bits - 1 - g.r.below(4),
        4 => bits + 1,
        5 if bits > 32 => 32,
        6 => g.r.below(bits),
        _ => bits / 2 - g.r.below(9),
    };
    let fixed = if gen_ == CKG_GENERATE_RANDOM as u64 && g.pct(80) { g.r.below((bits + 1).saturating_sub(64).max(1)) } else { fixed };
    let tag = if ccm { 4 + 2 * g.r.below(7) } else { *g.r.pick(&[16u64, 16, 12, 8, 4, 1]) };
    Conf { ccm, ivlen, fixed, gen_, tag, base: g.r.bytes(ivlen), keep: g.pct(50) }
}

/// one client's calls in session s
#[allow(clippy::too_many_arguments)]
fn calls(g: &mut G, s: V, ks: &[V], n: u64, ivs: bool, done: &mut Vec<(V, MsgPar, usize, Vec<u8>)>, targets: &mut Vec<u32>) -> Vec<OpRec> {
    let mut v = vec![];
    let mut c = conf(g);
    let mut push = |g: &mut G, v: &mut Vec<OpRec>, op: Op| {
        let o = g.op(op);
        targets.push(o.id);
        v.push(o);
    };
    let mv = g.v();
    let init = |g: &mut G, c: &Conf, f: Fun, ks: &[V]| Op::MsgInit {
        s,
        f,
        m: m(if c.ccm { CKM_AES_CCM } else { CKM_AES_GCM }),
        o: *g.r.pick(ks),
    };
    let op = init(g, &c, Fun::Enc, ks);
    push(g, &mut v, op);
    let mut buf = |g: &mut G, n: usize| match g.r.below(10) {
        0 => Buf::Query,
        1 if n > 0 => Buf::Len(g.r.below(n as u64) as u32),
        2 if n > 0 => Buf::Retry(g.r.below(n as u64) as u32),
        3 => Buf::Len(n as u32),
        4 => Buf::Exact,
        _ => Buf::Big,
    };
    for _ in 0..n {
        match g.r.below(if ivs { 14 } else { 24 }) {
            // another operation
            0 => {
                let op = match g.r.below(3) {
                    0 => Op::MsgFinal { s, f: Fun::Enc },
                    1 => Op::Cancel { s, flags: CKF_MESSAGE_ENCRYPT as u64 },
                    _ => Op::Nop,
                };
                push(g, &mut v, op);
                if g.pct(80) {
                    c = conf(g);
                }
                let op = init(g, &c, Fun::Enc, ks);
                push(g, &mut v, op);
            }
            // a message in one call
            1..=7 => {
                let dl = 1 + g.r.idx(50);
                let al = g.r.idx(20);
                let d = g.r.bytes(dl);
                let aad = if g.pct(60) { g.r.bytes(al) } else { vec![] };
                let mv = if c.keep { mv } else { g.v() };
                let p = MsgPar { ccm: c.ccm, keep: c.keep, iv: Hx(c.base.clone()), fixed: c.fixed, gen_: c.gen_, tag: c.tag, len: dl as u64 };
                done.push((mv, p.clone(), dl, aad.clone()));
                let b = buf(g, dl);
                push(g, &mut v, Op::Msg { s, f: Fun::Enc, how: 0, v: mv, p, aad: Hx(aad), d: Hx(d), src: 0, at: 0, n: 0, flip: 0, b });
            }
            // in parts
            8..=12 => {
                let parts: Vec<usize> = (0..1 + g.r.idx(3)).map(|_| 1 + g.r.idx(40)).collect();
                let total: usize = parts.iter().sum();
                let al = g.r.idx(20);
                let aad = if g.pct(60) { g.r.bytes(al) } else { vec![] };
                let mv = if c.keep { mv } else { g.v() };
                let off = if g.pct(8) { 1 } else { 0 };
                let p = MsgPar { ccm: c.ccm, keep: c.keep, iv: Hx(c.base.clone()), fixed: c.fixed, gen_: c.gen_, tag: c.tag, len: (total + off) as u64 };
                done.push((mv, p.clone(), total, aad.clone()));
                let mk = |how, d: Vec<u8>, b, p: &MsgPar, aad: &[u8]| Op::Msg {
                    s, f: Fun::Enc, how, v: mv, p: p.clone(), aad: Hx(aad.to_vec()), d: Hx(d), src: 0, at: 0, n: 0, flip: 0, b,
                };
                push(g, &mut v, mk(1, vec![], Buf::Big, &p, &aad));
                let k = parts.len();
                for (i, n) in parts.into_iter().enumerate() {
                    let how = if i + 1 == k { 3 } else { 2 };
                    let d = g.r.bytes(n);
                    let need = if !c.ccm { n } else if how == 3 { total } else { 0 };
                    let b = buf(g, need);
                    let again = matches!(b, Buf::Query) || matches!(b, Buf::Len(x) if (x as usize) < need);
                    push(g, &mut v, mk(how, d.clone(), b, &p, &aad));
                    if again {
                        push(g, &mut v, mk(how, d, Buf::Big, &p, &aad));
                    }
                    if g.pct(4) {
                        let op = match g.r.below(3) {
                            0 => Op::MsgFinal { s, f: Fun::Enc },
                            1 => Op::Cancel { s, flags: CKF_MESSAGE_ENCRYPT as u64 },
                            _ => init(g, &c, Fun::Enc, ks),
                        };
                        push(g, &mut v, op);
                    }
                }
            }
            13 => {
                let op = match g.r.below(4) {
                    0 => Op::MsgFinal { s, f: Fun::Enc },
                    1 => Op::SInfo { s },
                    2 => Op::Cancel { s, flags: CKF_MESSAGE_DECRYPT as u64 },
                    _ => Op::Random { s, n: 16 },
                };
                push(g, &mut v, op);
            }
            // and back
            _ => {
                if done.is_empty() {
                    continue;
                }
                let (src, mut p, len, mut aad) = g.r.pick(done).clone();
                p.keep = false;
                p.gen_ = CKG_NO_GENERATE as u64;
                p.fixed = 0;
                let flip = if g.pct(20) { 1 + g.r.below(8 * (len as u64 + p.tag)) as u32 } else { 0 };
                if g.pct(5) {
                    aad.push(1);
                }
                if g.pct(70) {
                    if g.pct(50) {
                        push(g, &mut v, Op::Cancel { s, flags: CKF_MESSAGE_DECRYPT as u64 });
                    }
                    let o = *g.r.pick(ks);
                    let mm = m(if p.ccm { CKM_AES_CCM } else { CKM_AES_GCM });
                    push(g, &mut v, Op::MsgInit { s, f: Fun::Dec, m: mm, o });
                }
                let mv = g.v();
                let mk = |how, at: usize, n: usize, flip, b| Op::Msg {
                    s, f: Fun::Dec, how, v: mv, p: p.clone(), aad: Hx(aad.clone()), d: Hx::default(), src, at: at as u32, n: n as u32, flip, b,
                };
                if g.pct(50) {
                    let b = buf(g, len);
                    push(g, &mut v, mk(0, 0, 0, flip, b));
                    if b == Buf::Query {
                        push(g, &mut v, mk(0, 0, 0, flip, Buf::Big));
                    }
                } else {
                    push(g, &mut v, mk(1, 0, 0, 0, Buf::Big));
                    let mut at = 0;
                    while at < len {
                        let n = (1 + g.r.idx(40)).min(len - at);
                        let how = if at + n >= len { 3 } else { 2 };
                        let need = if !p.ccm { n } else if how == 3 { len } else { 0 };
                        let b = buf(g, need);
                        let again = matches!(b, Buf::Query) || matches!(b, Buf::Len(x) if (x as usize) < need);
                        let fl = if g.pct(6) { 1 + g.r.below(n as u64 * 8) as u32 } else { 0 };
                        push(g, &mut v, mk(how, at, n, fl, b));
                        if again {
                            push(g, &mut v, mk(how, at, n, fl, Buf::Big));
                        }
                        at += n;
                    }
                }
            }
        }
    }
    // a new operation can be started whatever happened
    for f in [Fun::Enc, Fun::Dec] {
        let fl = if f == Fun::Enc { CKF_MESSAGE_ENCRYPT } else { CKF_MESSAGE_DECRYPT } as u64;
        push(g, &mut v, Op::Cancel { s, flags: fl });
        let op = init(g, &c, f, ks);
        push(g, &mut v, op);
        push(g, &mut v, Op::MsgFinal { s, f });
    }
    v
}

fn gen_(g: &mut G, cl: u64, ivs: bool, rng: u64) {
    g.p.image = "sq".into();
    let ninc = if ivs { 1 + g.r.below(2) } else { 1 };
    let mut ks: Vec<GO> = vec![];
    for k in 0..ninc {
        let mut inc = Inc::default();
        let (mut pre, s) = g.start("sq", 1, true);
        if k == 0 {
            for _ in 0..1 + g.r.below(2) {
                let token = ninc > 1 || g.pct(50);
                let o = g.v();
                let l = g.label();
                let mut t = g.base(token, true, &l);
                let kl = *g.r.pick(&[16usize, 24, 32]);
                let b = g.r.bytes(kl);
                t.extend([
                    (CKA_CLASS, AV::U(CKO_SECRET_KEY)),
                    (CKA_KEY_TYPE, AV::U(CKK_AES)),
                    (CKA_VALUE, xb(&b)),
                    (CKA_ENCRYPT, AV::B(true)),
                    (CKA_DECRYPT, AV::B(true)),
                ]);
                ks.push(GO { v: o, slot: 1, k: K::Aes, token, private: true, label: l, t: t.clone() });
                pre.push(g.op(Op::Create { s, o, t }));
            }
        } else {
            for o in ks.clone() {
                pre.push(g.locate(s, &o));
            }
        }
        let kv: Vec<V> = ks.iter().map(|o| o.v).collect();
        let mut targets = vec![];
        for _ in 0..cl {
            let cs = g.v();
            pre.push(g.op(Op::Open { slot: 1, rw: true, s: cs }));
            let mut done = vec![];
            let n = if cl > 1 { 3 + g.r.below(5) } else { 4 + g.r.below(14) };
            let v = calls(g, cs, &kv, n, ivs, &mut done, &mut targets);
            if cl > 1 {
                inc.clients.push(v);
            } else {
                pre.extend(v);
            }
        }
        inc.pre = pre;
        if g.pct(rng) {
            for _ in 0..1 + g.r.below(2) {
                let t = *g.r.pick(&targets);
                let f = Fault { op: t, io: Io::Rng, nth: 0, kind: FaultKind::RngFail, count: 1, only: true, file: String::new() };
                inc.faults.push(f);
            }
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(cl > 1);
        g.p.incs.push(inc);
    }
}

pub fn messages() -> Scen {
    Scen { name: "messages", weight: 4, gen_: |g| gen_(g, 1, false, 15), judge: judge_msg }
}

pub fn p24() -> Vec<Scen> {
    let mut v = vec![
        Scen { name: "messages", weight: 4, gen_: |g| gen_(g, 1, true, 15), judge: judge_msg },
        Scen { name: "sessions", weight: 3, gen_: |g| { let n = 2 + g.r.below(2); gen_(g, n, true, 15) }, judge: judge_msg },
    ];
    v.extend(at_rest());
    v
}

/// Stored ciphertexts: what went into key and IV of one is of no other.
fn judge_rest(_: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let mut seen: HashMap<&str, (&str, &str)> = HashMap::new();
    for (k, i) in out.incs.iter().enumerate() {
        for e in &i.ev {
            let Ev::Note { s } = e else { continue };
            let Some(s) = s.strip_prefix("at rest ") else { continue };
            let mut w = s.splitn(3, ' ');
            let (Some(ctx), Some(ct), Some(what)) = (w.next(), w.next(), w.next()) else { continue };
            st.nontrivial = true;
            let was = seen.entry(ctx).or_insert((ct, what));
            if was.0 != ct {
                return vec![Viol {
                    sig: "iv-reused-at-rest".into(),
                    detail: format!("before incarnation {k}: {what} was encrypted with the salt or id and IV {ctx} of {}", was.1),
                }];
            }
        }
    }
    vec![]
}

fn rest(g: &mut G, f: fn(&mut G)) {
    f(g);
    let last = Inc { sched: crate::sched::SchedSpec { seed: g.r.next(), ..Default::default() }, ..Default::default() };
    g.p.incs.push(last);
    let n = g.p.incs.len();
    for k in 0..n {
        g.p.incs[k].tamper.push(Tamper::Scan);
        if k + 1 < n && g.pct(25) {
            let inc = &g.p.incs[k];
            let ids: Vec<u32> = inc.clients.iter().chain([&inc.post, &inc.pre]).flatten().filter(|o| !matches!(o.op, Op::Init { .. })).map(|o| o.id).collect();
            if ids.is_empty() {
                continue;
            }
            let op = *g.r.pick(&ids);
            let f = Fault { op, io: Io::Rng, nth: g.r.below(6) as u32, kind: FaultKind::RngFail, count: 1 + g.r.below(2) as u32, only: true, file: String::new() };
            g.p.incs[k].faults.push(f);
        }
    }
}

fn store(g: &mut G, conf: &str) {
    g.p.image = conf.into();
    g.private_pct = 60;
    g.pairs = true;
    g.kinds = vec![K::Aes, K::RsaPriv, K::RsaPriv, K::EcImp, K::Otp];
    if conf == "nss" {
        g.kinds.pop();
    }
    let k = std::mem::take(&mut g.kinds);
    super::obj::storage_of(g, conf, 1, &W { genpair: 3, ..WCHANGE }, 30, 30, 20, k);
}

pub fn at_rest() -> Vec<Scen> {
    vec![
        Scen { name: "store", weight: 3, gen_: |g| rest(g, |g| store(g, "sq")), judge: judge_rest },
        Scen { name: "store-nss", weight: 2, gen_: |g| rest(g, |g| store(g, "nss")), judge: judge_rest },
        Scen {
            name: "pins",
            weight: 2,
            gen_: |g| rest(g, |g| { let c = if g.pct(60) { "sq" } else { "nss" }; super::pins::change(g, c, 20, 30, 10) }),
            judge: judge_rest,
        },
        Scen { name: "init", weight: 1, gen_: |g| rest(g, |g| super::pins::init_token(g, "sq", "sq", 20, 30)), judge: judge_rest },
    ]
}
