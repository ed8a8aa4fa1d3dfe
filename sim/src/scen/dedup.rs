//! P35: objects that a token keeps once.  A slot may be told to treat a new
//! object with the identity of a stored one as its replacement
//! (`objects_dedup`); without that, a second trust object for a certificate is
//! refused.
use super::*;
use kryoptic_lib::pkcs11::*;
use std::collections::BTreeMap;

const OK: u64 = 0;
type Key = (u64, u64, Vec<u8>);

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Ob {
    h: Option<u64>,
    a: BTreeMap<u64, Vec<u8>>,
    /// what earlier objects under this identity kept secret
    past: Vec<Vec<u8>>,
}
impl Ob {
    fn flag(&self, a: u64, d: bool) -> bool {
        self.a.get(&a).map(|v| v.first() == Some(&1)).unwrap_or(d)
    }
    fn hidden(&self) -> bool {
        self.flag(CKA_SENSITIVE, true) || !self.flag(CKA_EXTRACTABLE, false)
    }
    fn key(&self) -> bool {
        matches!(self.num(CKA_CLASS), CKO_SECRET_KEY | CKO_PRIVATE_KEY)
    }
    fn num(&self, a: u64) -> u64 {
        self.a.get(&a).map(|v| u64::from_ne_bytes(v.clone().try_into().unwrap())).unwrap_or(0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct S {
    login: u64,
    objs: BTreeMap<Key, Ob>,
    /// handles given out
    hs: BTreeMap<u64, Key>,
}

/// Is a class kept once?
fn once(mode: i64, class: u64) -> bool {
    match class {
        CKO_TRUST => true,
        CKO_CERTIFICATE => mode < 2,
        _ => mode == 0,
    }
}

/// What an object is known by: its identity, with the label if there may be
/// several of that identity.
fn ident(mode: i64, t: &Tmpl) -> Option<Key> {
    let (c, k, mut v) = ident_(t)?;
    if !once(mode, c) {
        v.push(b'/');
        v.extend(crate::model::tget(t, CKA_LABEL)?);
    }
    Some((c, k, v))
}

fn ident_(t: &Tmpl) -> Option<Key> {
    let g = |a| crate::model::tget(t, a);
    let n = |a| g(a).map(|v| u64::from_ne_bytes(v.try_into().unwrap()));
    let c = n(CKA_CLASS)?;
    Some(match c {
        CKO_CERTIFICATE | CKO_TRUST => {
            let mut v = g(CKA_ISSUER)?;
            v.push(b'/');
            v.extend(g(CKA_SERIAL_NUMBER)?);
            (c, 0, v)
        }
        _ => (c, n(CKA_KEY_TYPE)?, g(CKA_ID)?),
    })
}

fn step(p: &Plan, st: &S, rec: &OpRec, c: &Call) -> Result<Vec<S>, Why> {
    let focus = p.knobs.get("focus").copied().unwrap_or(35);
    let merge = p.knobs.contains_key("override");
    let mode = p.knobs.get("mode").copied().unwrap_or(0);
    let why = |sig: &str, d: String| Err(Why { sig: sig.into(), detail: d });
    let rv = match &c.res {
        Some(r) if r.rv == SKIP => return Ok(vec![st.clone()]),
        Some(r) => Some(r.rv),
        None => None,
    };
    let ok = rv == Some(OK);
    let both = rv.is_none() || !ok && c.fault;
    let mut n = st.clone();
    match &rec.op {
        Op::Init { .. } => {
            n.login = 0;
            n.hs.clear();
            n.objs.values_mut().for_each(|o| o.h = None);
            Ok(vec![n])
        }
        Op::Fini => {
            if ok {
                n.login = 0;
            }
            Ok(vec![n])
        }
        Op::Login { u, .. } => {
            n.login = if *u == CKU_SO { 2 } else { 1 };
            match ok {
                true => Ok(vec![n]),
                _ if both => Ok(vec![st.clone(), n]),
                _ => Ok(vec![st.clone()]),
            }
        }
        Op::Logout { .. } => {
            n.login = 0;
            match ok {
                true => Ok(vec![n]),
                _ => Ok(vec![st.clone(), n]),
            }
        }
        Op::Create { t, .. } => {
            let Some(k) = ident(mode, t) else { return Ok(vec![n]) };
            let a: BTreeMap<u64, Vec<u8>> = t.iter().map(|x| (x.0, x.1.bytes())).collect();
            let mut o = Ob { h: None, a, past: vec![] };
            let old = st.objs.get(&k);
            let private = o.flag(CKA_PRIVATE, o.key());
            let mut no = "";
            if st.login == 0 || private && st.login != 1 {
                no = "made-without-login";
            }
            if let Some(x) = old {
                if !merge {
                    no = "second-object";
                } else if !x.flag(CKA_MODIFIABLE, true) && matches!(focus, 29 | 35) {
                    no = "fixed-object-replaced";
                } else if x.flag(CKA_PRIVATE, x.key()) && st.login != 1 && matches!(focus, 7 | 13 | 35) {
                    no = "private-object-replaced";
                }
                o.past = x.past.clone();
                o.h = x.h;
                if x.key() && x.hidden() {
                    for s in [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT] {
                        if let Some(v) = x.a.get(&s) {
                            o.past.push(v.clone());
                        }
                    }
                }
                let now: Vec<Vec<u8>> = o.a.values().cloned().collect();
                o.past.retain(|v| !now.contains(v));
            }
            if ok {
                let h = c.res.as_ref().unwrap().h.first().copied().unwrap_or(0);
                if !no.is_empty() {
                    return why(no, format!("handle {h}"));
                }
                match st.hs.get(&h) {
                    Some(x) if *x != k || old.is_none() => {
                        return why("wrong-handle", format!("handle {h} stands for another object"));
                    }
                    _ => {}
                }
                if let Some(Some(x)) = old.map(|x| x.h) {
                    if x != h {
                        return why("second-object", format!("a stored object has handle {x}, the new one {h}"));
                    }
                }
                o.h = Some(h);
                n.hs.insert(h, k.clone());
                n.objs.insert(k, o);
                return Ok(vec![n]);
            }
            if both {
                if !no.is_empty() {
                    return Ok(vec![n]);
                }
                n.objs.insert(k, o);
                return Ok(vec![st.clone(), n]);
            }
            if no.is_empty() && !matches!(old, Some(x) if !x.flag(CKA_MODIFIABLE, true) || st.login != 1) {
                return why("refused", format!("C_CreateObject failed with 0x{:x} without reason", rv.unwrap()));
            }
            Ok(vec![n])
        }
        Op::Set { t, .. } => {
            let Some(k) = st.hs.get(&c.vars[1]).cloned() else { return Ok(vec![n]) };
            let Some(o) = n.objs.get_mut(&k) else {
                return if ok { why("gone", "the object is gone".into()) } else { Ok(vec![n]) };
            };
            if ok && (!o.flag(CKA_MODIFIABLE, true) || st.login != 1 && o.flag(CKA_PRIVATE, o.key())) {
                return why("change", "a change that is not allowed".into());
            }
            for (a, v) in t {
                o.a.insert(*a, v.bytes());
            }
            match ok {
                true => Ok(vec![n]),
                _ if both => Ok(vec![st.clone(), n]),
                _ => Ok(vec![st.clone()]),
            }
        }
        Op::Destroy { .. } => {
            let Some(k) = st.hs.get(&c.vars[1]).cloned() else { return Ok(vec![n]) };
            n.objs.remove(&k);
            n.hs.remove(&c.vars[1]);
            match ok {
                true => Ok(vec![n]),
                _ if both => Ok(vec![st.clone(), n]),
                _ => Ok(vec![st.clone()]),
            }
        }
        Op::Locate { t, .. } => {
            let Some(k) = ident(mode, t) else { return Ok(vec![n]) };
            let Some(r) = &c.res else { return Ok(vec![n]) };
            if !ok {
                return if c.fault { Ok(vec![n]) } else { why("search", format!("a search failed with 0x{:x}", r.rv)) };
            }
            if r.h.len() > 1 {
                return why("second-object", format!("{} objects of one identity", r.h.len()));
            }
            let there = st.objs.get(&k).is_some_and(|o| st.login == 1 || !o.flag(CKA_PRIVATE, o.key()));
            match r.h.first() {
                None if there => why("lost", "the object is not found".into()),
                Some(_) if !there => why("gone", "an object is found that is gone or hidden".into()),
                None => Ok(vec![n]),
                Some(h) => {
                    let o = n.objs.get_mut(&k).unwrap();
                    if o.h.is_some_and(|x| x != *h) || st.hs.get(h).is_some_and(|x| *x != k) {
                        return why("wrong-handle", format!("handle {h}"));
                    }
                    o.h = Some(*h);
                    n.hs.insert(*h, k);
                    Ok(vec![n])
                }
            }
        }
        Op::Get { .. } => {
            let Some(r) = &c.res else { return Ok(vec![n]) };
            let h = c.vars[1];
            let o = st.hs.get(&h).and_then(|k| st.objs.get(k));
            let Some(o) = o else {
                return if ok { why("gone", "an object is read that is gone".into()) } else { Ok(vec![n]) };
            };
            if st.login != 1 && o.flag(CKA_PRIVATE, o.key()) && !r.a.is_empty() {
                return why("hidden", "a private object is read".into());
            }
            for (a, v) in &r.a {
                let Some(v) = v else { continue };
                let secret = o.key() && crate::model::is_secret_attr(*a);
                if secret && o.hidden() {
                    return why("secret-value-revealed", format!("attribute 0x{a:x}"));
                }
                if secret && o.past.contains(&v.0) {
                    if matches!(focus, 9) {
                        return why("old-secret-readable", format!("attribute 0x{a:x} of a sensitive key that was replaced is read"));
                    }
                    continue;
                }
                match o.a.get(a) {
                    Some(x) if *x != v.0 => {
                        return why("attribute", format!("attribute 0x{a:x} is {} and not {}", hex(&v.0), hex(x)));
                    }
                    _ => {}
                }
            }
            if r.a.is_empty() && !c.fault && st.login == 1 {
                return why("unreadable", format!("reading failed with 0x{:x}", r.rv));
            }
            Ok(vec![n])
        }
        _ => Ok(vec![n]),
    }
}

fn judge(p: &Plan, out: &RunOut, js: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let ops = p.ops();
    let o = lin::Opts::default();
    let mut st = vec![S::default()];
    for (i, x) in p.incs.iter().zip(&out.incs) {
        let f = |s: &S, r: &OpRec, c: &Call| step(p, s, r, c);
        match lin::explain(i, x, &ops, st, &f, &o, &mut js.lin) {
            Ok(Some(v)) => st = v,
            Ok(None) => break,
            Err(w) => return vec![from_why(w)],
        }
        js.nontrivial |= st.iter().any(|s| !s.objs.is_empty());
    }
    vec![]
}

fn obj(g: &mut G, mode: u64, so: bool) -> Tmpl {
    let l = g.label();
    let id = *g.r.pick(&["id-1", "id-2"]);
    let private = !so && g.pct(70);
    let mut t: Tmpl;
    match if g.pct(30) || mode == 0 { *g.r.pick(&[0u64, 0, 1, 3, 4, 5, 6, 7, 8]) } else if mode == 1 { 4 + g.r.below(2) } else { 5 } {
        0..=2 => {
            t = vec![(CKA_CLASS, AV::U(CKO_SECRET_KEY)), (CKA_KEY_TYPE, AV::U(CKK_AES)), (CKA_ID, x(id))];
            let n = *g.r.pick(&[16usize, 32]);
            let v = g.r.bytes(n);
            g.secret(&format!("value of {l}"), &v, true);
            t.push((CKA_VALUE, xb(&v)));
            t.push((CKA_PRIVATE, AV::B(private)));
            t.push((CKA_ENCRYPT, AV::B(true)));
        }
        // the same identifiers on keys of other types and classes
        6 => {
            t = g.generic(true, private, &l);
            t.retain(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN | CKA_ID | CKA_SENSITIVE | CKA_EXTRACTABLE));
            t.push((CKA_ID, x(id)));
        }
        7 => {
            let k = g.r.idx(crate::keys::RSA.len());
            t = ops::rsa_pub(k, &l);
            t.retain(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN));
            t.push((CKA_ID, x(id)));
        }
        8 => {
            t = g.ecimp(true, private, &l);
            t.retain(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN | CKA_ID | CKA_SENSITIVE | CKA_EXTRACTABLE));
            t.push((CKA_ID, x(id)));
        }
        3 => {
            let k = g.r.idx(crate::keys::RSA.len());
            t = ops::rsa_priv(k, true, &l);
            t.retain(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN | CKA_PRIVATE));
            for a in [CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_COEFFICIENT] {
                if let Some(v) = crate::model::tget(&t, a) {
                    g.secret(&format!("attribute 0x{a:x} of {l}"), &v, true);
                }
            }
            if g.pct(50) {
                t.retain(|x| !matches!(x.0, CKA_PRIME_1 | CKA_PRIME_2 | CKA_EXPONENT_1 | CKA_EXPONENT_2 | CKA_COEFFICIENT));
            }
            t.push((CKA_ID, x(id)));
            t.push((CKA_PRIVATE, AV::B(private)));
        }
        4 => {
            let private = !so && g.pct(30);
            t = g.cert(true, private, &l);
            t.retain(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN | CKA_ISSUER | CKA_SERIAL_NUMBER));
            t.push((CKA_ISSUER, x("issuer")));
            t.push((CKA_SERIAL_NUMBER, x(id)));
        }
        _ => {
            let private = !so && g.pct(20);
            t = g.trust(true, private, &l);
            t.retain(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN | CKA_ISSUER | CKA_SERIAL_NUMBER));
            t.push((CKA_ISSUER, x("issuer")));
            t.push((CKA_SERIAL_NUMBER, x(id)));
        }
    }
    t.push((CKA_TOKEN, AV::B(true)));
    t.push((CKA_LABEL, x(&l)));
    if matches!(crate::model::tget(&t, CKA_CLASS).map(|v| v[0] as u64), Some(CKO_SECRET_KEY | CKO_PRIVATE_KEY)) {
        let s = g.pct(50);
        t.push((CKA_SENSITIVE, AV::B(s)));
        t.push((CKA_EXTRACTABLE, AV::B(!s)));
    }
    if g.pct(25) {
        t.push((CKA_MODIFIABLE, AV::B(false)));
    }
    t
}

/// what identifies an object like t
fn same(mode: i64, t: &Tmpl) -> Tmpl {
    let class = ident_(t).map(|x| x.0).unwrap_or(0);
    t.iter()
        .filter(|x| matches!(x.0, CKA_CLASS | CKA_KEY_TYPE | CKA_ISSUER | CKA_SERIAL_NUMBER))
        .chain(t.iter().filter(|x| x.0 == CKA_ID && t.iter().any(|y| y.0 == CKA_KEY_TYPE)))
        .chain(t.iter().filter(|x| x.0 == CKA_LABEL && !once(mode, class)))
        .cloned()
        .collect()
}

const ATTRS: &[u64] = &[CKA_LABEL, CKA_VALUE, CKA_PRIVATE, CKA_MODIFIABLE, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_PRIME_1, CKA_ID];

fn dedup(g: &mut G, focus: i64, so: u64, io: u64, crash: u64) {
    g.knob("focus", focus);
    // 0: every object, 1: certificates and trust, 2: trust, 3: trust is refused twice
    let mode = if focus != 35 { 0 } else { g.r.weighted(&[6, 1, 1, 3]) as u64 };
    let nss = mode == 0 && g.pct(30);
    let conf = match mode {
        0 if nss => "ddn",
        0 => "dd",
        1 => "dc",
        2 => "dt",
        _ => "sq",
    };
    if mode != 3 {
        g.knob("override", 1);
    }
    g.knob("mode", mode as i64);
    let kind = mode as i64;
    g.p.image = if nss { "nss" } else { "sq" }.into();
    let (io, crash) = if nss && (io > 0 || crash > 0) { (0, 0) } else { (io, crash) };
    let ninc = 1 + g.r.below(3);
    let mut made: Vec<Tmpl> = vec![];
    for k in 0..ninc {
        let (mut pre, s) = g.start(conf, 1, true);
        let mut vs: Vec<(V, Tmpl)> = vec![];
        for t in &made {
            let o = g.v();
            pre.push(g.op(Op::Locate { s, o, t: same(kind, t) }));
            vs.push((o, t.clone()));
        }
        let mut inc = Inc::default();
        let mut targets = vec![];
        let mut one = |g: &mut G, s: V, as_so: bool, vs: &mut Vec<(V, Tmpl)>, made: &mut Vec<Tmpl>, out: &mut Vec<OpRec>| {
            let have = if vs.is_empty() { None } else { Some(g.r.idx(vs.len())) };
            let op = match (g.r.below(10), have) {
                (0..=4, _) | (_, None) => {
                    let t = obj(g, mode, as_so);
                    let o = g.v();
                    vs.push((o, t.clone()));
                    if !made.iter().any(|x| ident(kind, x) == ident(kind, &t)) {
                        made.push(t.clone());
                    }
                    Op::Create { s, o, t }
                }
                (5..=7, Some(i)) => Op::Get { s, o: vs[i].0, a: ATTRS.to_vec() },
                (8, Some(i)) => {
                    let class = ident_(&vs[i].1).map(|x| x.0).unwrap_or(0);
                    if g.pct(60) && once(kind, class) {
                        let l = g.label();
                        Op::Set { s, o: vs[i].0, t: vec![(CKA_LABEL, x(&l))] }
                    } else {
                        Op::Destroy { s, o: vs[i].0 }
                    }
                }
                (_, Some(i)) => {
                    let o = g.v();
                    let t = vs[i].1.clone();
                    vs.push((o, t.clone()));
                    Op::Locate { s, o, t: same(kind, &t) }
                }
            };
            let op = g.op(op);
            if matches!(op.op, Op::Create { .. }) {
                targets.push(op.id);
            }
            out.push(op);
        };
        for _ in 0..3 + g.r.below(8) {
            one(g, s, false, &mut vs, &mut made, &mut pre);
        }
        let mut conc = false;
        if !nss && g.pct(so) {
            pre.push(g.op(Op::Logout { s }));
            pre.push(g.op(Op::Login { s, u: CKU_SO, pin: SO.into() }));
            for _ in 0..2 + g.r.below(5) {
                one(g, s, true, &mut vs, &mut made, &mut pre);
            }
            pre.push(g.op(Op::Logout { s }));
            let l = g.login(s);
            pre.push(l);
        } else if focus != 9 && g.pct(50) {
            conc = true;
            for _ in 0..2 + g.r.below(2) {
                let c = g.v();
                pre.push(g.op(Op::Open { slot: 1, rw: true, s: c }));
                let mut v = vec![];
                let mut mine = vs.clone();
                for _ in 0..1 + g.r.below(4) {
                    one(g, c, false, &mut mine, &mut made, &mut v);
                }
                inc.clients.push(v);
            }
        }
        for t in &made {
            let o = g.v();
            inc.post.push(g.op(Op::Locate { s, o, t: same(kind, t) }));
            inc.post.push(g.op(Op::Get { s, o, a: ATTRS.to_vec() }));
        }
        inc.pre = pre;
        if g.pct(io) && !targets.is_empty() {
            let t = *g.r.pick(&targets);
            let f = g.io_fault(t, "");
            inc.faults.push(f);
        }
        if g.pct(crash) && !targets.is_empty() {
            let t = *g.r.pick(&targets);
            let f = g.crash_fault(t);
            inc.faults.push(f);
        }
        inc.end_power = g.pct(50);
        inc.sched = g.sched(conc);
        g.p.incs.push(inc);
        let _ = k;
    }
}

pub fn p35() -> Vec<Scen> {
    vec![
        Scen { name: "keep", weight: 3, gen_: |g| dedup(g, 35, 30, 0, 0), judge },
        Scen { name: "faults", weight: 3, gen_: |g| dedup(g, 35, 20, 60, 50), judge },
    ]
}
pub fn fixed() -> Scen {
    Scen { name: "replace", weight: 1, gen_: |g| dedup(g, 29, 0, 0, 20), judge }
}
pub fn so() -> Scen {
    Scen { name: "replace", weight: 1, gen_: |g| dedup(g, 13, 100, 0, 0), judge }
}
/// the workload alone
pub fn leak(g: &mut G) {
    dedup(g, 8, 0, 20, 30)
}
pub fn secrets() -> Scen {
    Scen { name: "replace", weight: 1, gen_: |g| dedup(g, 9, 0, 0, 20), judge }
}
