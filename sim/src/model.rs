//! Executable reference model of the token: an acceptor that takes one call
//! with its observed result and gives the states the token may be in after it.
//!
//! Objects are identified by their label, which the generators keep unique;
//! handles are resolved to labels from the history itself (see names()).
use crate::plan::*;
use kryoptic_lib::pkcs11::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const OK: u64 = CKR_OK as u64;
pub const PROBE: u64 = 1 << 60;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Obj {
    pub slot: u64,
    pub token: bool,
    pub private: bool,
    /// creating session (session objects)
    pub sess: u64,
    /// known defect: only part of it is stored
    pub broken: bool,
    /// whether it may claim to have been sensitive always / extractable never
    pub as_ok: bool,
    pub ne_ok: bool,
    /// attributes known so far; None: known to be withheld or absent
    pub known: BTreeMap<u64, Option<Hx>>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Tok {
    pub init: bool,
    pub label: Option<String>,
    pub so: Option<String>,
    pub user: Option<String>,
    pub so_fail: u32,
    pub user_fail: u32,
    /// 0 nobody, 1 user, 2 security officer
    pub login: u8,
    /// NSS database: no security officer
    pub nss: bool,
    /// known defect: in a state nothing is known about
    pub wild: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ses {
    pub slot: u64,
    pub rw: bool,
    pub find: Option<Search>,
}

/// what an active search has still to return
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Search {
    pub must: BTreeSet<String>,
    pub may: BTreeSet<String>,
    /// returned, but it is not known which ones these are
    pub unk: usize,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct M {
    pub up: bool,
    pub toks: BTreeMap<u64, Tok>,
    pub sess: BTreeMap<u64, Ses>,
    pub objs: BTreeMap<String, Obj>,
    /// object handles given out in this incarnation: (slot, handle) -> label
    pub hmap: BTreeMap<(u64, u64), String>,
    /// tokens initialized in this incarnation: the objects built into them
    /// have got new handles
    pub rebuilt: BTreeSet<u64>,
    /// session handles ever given out in this initialization
    pub used_s: BTreeSet<u64>,
    /// labels of objects erased by the initialization of their token
    pub erased: BTreeSet<String>,
    /// the state is only reached by way of this known defect
    pub taint: Option<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Why {
    pub sig: String,
    pub detail: String,
}
pub type Out = Result<Vec<M>, Why>;

fn bad<T>(sig: &str, detail: String) -> Result<T, Why> {
    Err(Why {
        sig: sig.to_string(),
        detail,
    })
}

/// label of the object behind each (slot, handle), as the history shows it
pub type Names = HashMap<(u64, u64), String>;

pub struct Cx<'a> {
    pub names: &'a Names,
    /// a fault fired while the call ran
    pub fault: bool,
    /// failures need no excuse
    pub lenient: bool,
}

pub fn tget(t: &Tmpl, a: u64) -> Option<Vec<u8>> {
    t.iter().find(|x| x.0 == a).map(|x| x.1.bytes())
}
pub fn tbool(t: &Tmpl, a: u64) -> Option<bool> {
    tget(t, a).map(|v| v.first().copied().unwrap_or(0) != 0)
}
pub fn tlabel(t: &Tmpl) -> Option<String> {
    tget(t, CKA_LABEL).map(|v| String::from_utf8_lossy(&v).to_string())
}
pub fn lab(v: &[(u64, Option<Hx>)]) -> Option<String> {
    v.iter()
        .find(|x| x.0 == CKA_LABEL)
        .and_then(|x| x.1.as_ref())
        .filter(|h| !h.0.is_empty())
        .map(|h| String::from_utf8_lossy(&h.0).to_string())
}

impl Obj {
    pub fn flag(&self, a: u64) -> Option<bool> {
        match self.known.get(&a) {
            Some(Some(h)) => Some(h.0.first().copied().unwrap_or(0) != 0),
            _ => None,
        }
    }
    pub fn num(&self, a: u64) -> Option<u64> {
        match self.known.get(&a) {
            Some(Some(h)) => Some(u64::from_ne_bytes(h.0.clone().try_into().ok()?)),
            _ => None,
        }
    }
    pub fn secret(&self) -> bool {
        matches!(self.num(CKA_CLASS), Some(CKO_SECRET_KEY | CKO_PRIVATE_KEY | CKO_OTP_KEY))
    }
    /// values may not be read: Some(true) certainly, Some(false) certainly not
    pub fn hidden(&self) -> Option<bool> {
        if !self.secret() {
            return Some(false);
        }
        match (self.flag(CKA_SENSITIVE), self.flag(CKA_EXTRACTABLE)) {
            (Some(true), _) | (_, Some(false)) => Some(true),
            (Some(false), Some(true)) => Some(false),
            _ => None,
        }
    }
}

pub fn is_secret_attr(a: u64) -> bool {
    matches!(
        a,
        CKA_VALUE
            | CKA_PRIVATE_EXPONENT
            | CKA_PRIME_1
            | CKA_PRIME_2
            | CKA_EXPONENT_1
            | CKA_EXPONENT_2
            | CKA_COEFFICIENT
    )
}
/// attributes that never change after creation
pub fn is_fixed_attr(a: u64) -> bool {
    matches!(
        a,
        CKA_CLASS
            | CKA_KEY_TYPE
            | CKA_UNIQUE_ID
            | CKA_LOCAL
            | CKA_TOKEN
            | CKA_PRIVATE
            | CKA_MODIFIABLE
            | CKA_ALWAYS_SENSITIVE
            | CKA_NEVER_EXTRACTABLE
            | CKA_KEY_GEN_MECHANISM
            | CKA_CERTIFICATE_TYPE
    )
}

pub fn fmt_attr(a: u64, v: &Option<Hx>) -> String {
    match v {
        None => format!("0x{:x}=-", a),
        Some(h) => {
            let s = hex(&h.0[..h.0.len().min(20)]);
            format!("0x{:x}={}{}", a, s, if h.0.len() > 20 { ".." } else { "" })
        }
    }
}

impl M {
    pub fn tag_of(&self, slot: u64, h: u64, cx: &Cx) -> Option<String> {
        self.hmap
            .get(&(slot, h))
            .or_else(|| cx.names.get(&(slot, h)))
            .cloned()
    }

    /// the handle may be that of an object built into the token, which the
    /// history never showed
    fn builtin(&self, slot: u64, h: u64, cx: &Cx) -> bool {
        self.rebuilt.contains(&slot) && self.tag_of(slot, h, cx).is_none()
    }

    /// stored key values are encrypted and cannot be read while nobody is
    /// logged in, even those of objects that are not private
    pub fn sealed(&self, o: &Obj) -> bool {
        o.token
            && !self.toks.get(&o.slot).is_some_and(|t| t.login == 1)
            && matches!(o.num(CKA_CLASS), None | Some(CKO_SECRET_KEY | CKO_PRIVATE_KEY | CKO_OTP_KEY))
    }

    pub fn visible(&self, o: &Obj, slot: u64) -> bool {
        // private session objects made without a login stay with their session
        o.slot == slot && (!o.private || !o.token || self.toks.get(&slot).is_some_and(|t| t.login == 1))
    }

    /// the process is gone, the disk is what it is
    pub fn crash(&mut self) {
        self.up = false;
        self.sess.clear();
        self.used_s.clear();
        self.hmap.clear();
        self.rebuilt.clear();
        self.objs.retain(|_, o| o.token);
        for t in self.toks.values_mut() {
            t.login = 0;
        }
    }

    fn drop_session(&mut self, h: u64) {
        let Some(s) = self.sess.remove(&h) else { return };
        self.objs.retain(|_, o| o.token || o.sess != h);
        if !self.sess.values().any(|x| x.slot == s.slot) {
            self.logout(s.slot);
        }
    }
    fn logout(&mut self, slot: u64) {
        if let Some(t) = self.toks.get_mut(&slot) {
            t.login = 0;
        }
        self.objs
            .retain(|_, o| o.token || o.slot != slot || !o.private);
    }

    fn bind(&mut self, slot: u64, h: u64, tag: &str) -> Result<(), Why> {
        if let Some(t) = self.hmap.get(&(slot, h)) {
            if t != tag {
                return bad(
                    "handle-reused",
                    format!("handle {h} stands for {tag} and before that for {t}"),
                );
            }
        }
        self.hmap.insert((slot, h), tag.to_string());
        Ok(())
    }

    /// one more wrong PIN; NSS databases have no place for the count
    fn miss(&mut self, slot: u64, so: bool) {
        if !self.toks[&slot].nss {
            *self.pinrec(slot, so).1 += 1;
        }
    }
    fn pinrec(&mut self, slot: u64, so: bool) -> (&mut Option<String>, &mut u32) {
        let t = self.toks.get_mut(&slot).unwrap();
        if so {
            (&mut t.so, &mut t.so_fail)
        } else {
            (&mut t.user, &mut t.user_fail)
        }
    }

    /// checks observed attributes against what is known and learns the rest
    fn observe(&mut self, tag: &str, v: &[(u64, Option<Hx>)], rv: u64) -> Result<(), Why> {
        let o = self.objs.get_mut(tag).unwrap();
        let rd = |a: u64| -> Option<bool> {
            v.iter()
                .find(|x| x.0 == a)
                .and_then(|x| x.1.as_ref())
                .map(|h| h.0.first().copied().unwrap_or(0) != 0)
        };
        let secret = o.secret()
            || v.iter().any(|x| {
                x.0 == CKA_CLASS
                    && matches!(&x.1, Some(h) if [CKO_SECRET_KEY, CKO_PRIVATE_KEY, CKO_OTP_KEY].iter().any(|c| h.0 == c.to_ne_bytes()))
            });
        let sens = rd(CKA_SENSITIVE).or(o.flag(CKA_SENSITIVE));
        let extr = rd(CKA_EXTRACTABLE).or(o.flag(CKA_EXTRACTABLE));
        let hidden = secret && (sens == Some(true) || extr == Some(false));
        if sens == Some(false) {
            o.as_ok = false;
        }
        if extr == Some(true) {
            o.ne_ok = false;
        }
        if rd(CKA_ALWAYS_SENSITIVE) == Some(true) && !o.as_ok {
            return bad("false-claim:always-sensitive", format!("{tag} was not always sensitive"));
        }
        if rd(CKA_NEVER_EXTRACTABLE) == Some(true) && !o.ne_ok {
            return bad("false-claim:never-extractable", format!("{tag} was extractable, or its value known outside"));
        }
        for (a, val) in v {
            if is_secret_attr(*a) && secret {
                if hidden {
                    if val.is_some() {
                        return bad(
                            "secret-value-revealed",
                            format!("{tag}: {}", fmt_attr(*a, val)),
                        );
                    }
                    continue;
                }
                if val.is_none() && (sens.is_none() || extr.is_none()) {
                    continue;
                }
            }
            match o.known.get(a) {
                Some(k) => {
                    if k != val {
                        return bad(
                            "attribute-changed",
                            format!(
                                "{tag}: expected {} but found {} (rv 0x{rv:x})",
                                fmt_attr(*a, k),
                                fmt_attr(*a, val)
                            ),
                        );
                    }
                }
                None => {
                    o.known.insert(*a, val.clone());
                }
            }
        }
        Ok(())
    }

    fn matches(o: &Obj, t: &Tmpl) -> Option<bool> {
        let mut sure = !o.broken;
        for (a, v) in t {
            if is_secret_attr(*a) && o.secret() {
                match o.hidden() {
                    Some(true) => return Some(false),
                    // stored values are encrypted
                    Some(false) if !o.token => {}
                    _ => {
                        sure = false;
                        continue;
                    }
                }
            }
            let have: Option<Option<Vec<u8>>> = match *a {
                CKA_TOKEN => Some(Some(vec![o.token as u8])),
                CKA_PRIVATE => Some(Some(vec![o.private as u8])),
                _ => o.known.get(a).map(|k| k.as_ref().map(|h| h.0.clone())),
            };
            match have {
                Some(Some(h)) => {
                    if h != v.bytes() {
                        return Some(false);
                    }
                }
                Some(None) => return Some(false),
                None => sure = false,
            }
        }
        if sure { Some(true) } else { None }
    }

    /// labels that must and that may be in the result of a search
    fn expect(&self, slot: u64, t: &Tmpl) -> (BTreeSet<String>, BTreeSet<String>) {
        let mut must = BTreeSet::new();
        let mut may = BTreeSet::new();
        for (k, o) in &self.objs {
            if !self.visible(o, slot) {
                continue;
            }
            match Self::matches(o, t) {
                Some(true) => {
                    must.insert(k.clone());
                }
                None => {
                    may.insert(k.clone());
                }
                _ => {}
            }
        }
        (must, may)
    }

    fn check_found(
        &mut self,
        slot: u64,
        t: &Tmpl,
        hs: &[u64],
        unread: usize,
        cx: &Cx,
    ) -> Result<Vec<String>, Why> {
        let (must, may) = self.expect(slot, t);
        let mut seen = BTreeSet::new();
        let mut tags = Vec::new();
        let mut unknown = unread;
        for h in hs {
            if !seen.insert(*h) {
                return bad("search-duplicate", format!("handle {h} twice"));
            }
            match self.tag_of(slot, *h, cx) {
                Some(tag) => {
                    if !must.contains(&tag) && !may.contains(&tag) {
                        let why = match self.objs.get(&tag) {
                            None => "which does not exist",
                            Some(o) if !self.visible(o, slot) => "which the session may not see",
                            _ => "which does not match",
                        };
                        let sig = match self.objs.get(&tag) {
                            None => "search-finds-gone-object",
                            Some(o) if !self.visible(o, slot) => "search-finds-hidden-object",
                            _ => "search-finds-nonmatching-object",
                        };
                        return bad(sig, format!("{tag} {why}"));
                    }
                    if tags.contains(&tag) {
                        return bad(
                            "two-handles-one-object",
                            format!("{tag} found under two handles"),
                        );
                    }
                    self.bind(slot, *h, &tag)?;
                    tags.push(tag);
                }
                None => unknown += 1,
            }
        }
        let missing: Vec<_> = must.iter().filter(|m| !tags.contains(m)).collect();
        if missing.len() > unknown {
            return bad(
                "search-misses-object",
                format!("{missing:?} not found (found {tags:?}, {unknown} unidentified)"),
            );
        }
        Ok(tags)
    }

    fn newobj(slot: u64, s: u64, t: &Tmpl) -> Obj {
        let mut known = BTreeMap::new();
        for (a, v) in t {
            known.insert(*a, Some(Hx(v.bytes())));
        }
        let token = tbool(t, CKA_TOKEN).unwrap_or(false);
        Obj {
            slot,
            token,
            private: tbool(t, CKA_PRIVATE).unwrap_or(false),
            sess: if token { 0 } else { s },
            broken: false,
            as_ok: false,
            ne_ok: false,
            known,
        }
    }

    /// known: what an NSS token stores of a public key goes to two files,
    /// which are not changed together
    fn half_stored(&self, tag: &str, o: &Obj, res: &Option<Res>, cx: &Cx, v: &mut Vec<M>) {
        if o.token && !o.secret() && self.toks[&o.slot].nss && unsure(res, cx) {
            let mut n = self.clone();
            let mut o = o.clone();
            o.broken = true;
            n.objs.insert(tag.to_string(), o);
            v.push(n.tainted("nss-half-stored"));
        }
    }
    /// known: an NSS token forgets the list of allowed mechanisms
    fn unlisted(&self, tag: &str, v: &mut Vec<M>) {
        let mut more = vec![];
        for n in v.iter() {
            if let Some(o) = n.objs.get(tag) {
                if o.token && n.toks[&o.slot].nss && matches!(o.known.get(&CKA_ALLOWED_MECHANISMS), Some(Some(_))) && !self.objs.contains_key(tag) {
                    let mut w = n.clone();
                    w.objs.get_mut(tag).unwrap().known.remove(&CKA_ALLOWED_MECHANISMS);
                    more.push(w.tainted("nss-allowed-mechanisms"));
                }
            }
        }
        v.append(&mut more);
    }
    pub fn tainted(mut self, t: &'static str) -> M {
        if self.taint.is_none() {
            self.taint = Some(t);
        }
        self
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum E {
    Must,
    May,
    Not,
}

/// the call did not return, or failed after a fault: it may have happened
fn unsure(res: &Option<Res>, cx: &Cx) -> bool {
    match res {
        None => true,
        Some(r) => r.rv != OK && cx.fault,
    }
}

/// generic combination of expectation and observation
fn comb(
    m: &M,
    after: impl Fn(&Res) -> Result<M, Why>,
    e: E,
    res: &Option<Res>,
    cx: &Cx,
    what: &str,
    why_not: &str,
    unacked: impl Fn() -> Option<M>,
) -> Out {
    match res {
        None => {
            let mut v = vec![m.clone()];
            if e != E::Not {
                if let Some(x) = unacked() {
                    if x != *m {
                        v.push(x);
                    }
                }
            }
            Ok(v)
        }
        Some(r) if r.rv == OK => {
            if e == E::Not {
                return bad(
                    &format!("{what}-allowed:{why_not}"),
                    format!("{what} returned CKR_OK although {why_not}"),
                );
            }
            Ok(vec![after(r)?])
        }
        Some(r) => {
            if e == E::Must && !cx.fault && !cx.lenient {
                return bad(
                    &format!("{what}-failed:0x{:x}", r.rv),
                    format!("{what} failed with 0x{:x} without reason", r.rv),
                );
            }
            let mut v = vec![m.clone()];
            if cx.fault && e != E::Not {
                if let Some(x) = unacked() {
                    if x != *m {
                        v.push(x);
                    }
                }
            }
            Ok(v)
        }
    }
}

pub fn step(m: &M, op: &Op, vars: &[u64], res: &Option<Res>, cx: &Cx) -> Out {
    if let Some(r) = res {
        if r.rv == SKIP {
            return Ok(vec![m.clone()]);
        }
    }
    let same = || Some(m.clone());
    // calls on the library as a whole
    match op {
        Op::Nop => return Ok(vec![m.clone()]),
        Op::Init { .. } => {
            let mut n = m.clone();
            n.up = true;
            let e = if m.up {
                E::Not
            } else if m.toks.values().any(|t| t.wild) {
                E::May
            } else {
                E::Must
            };
            return comb(m, |_| Ok(n.clone()), e, res, cx, "C_Initialize", "already initialized", || Some(n.clone()));
        }
        Op::Fini => {
            let mut n = m.clone();
            n.crash();
            let e = if m.up { E::Must } else { E::Not };
            return comb(m, |_| Ok(n.clone()), e, res, cx, "C_Finalize", "not initialized", || Some(n.clone()));
        }
        _ => {}
    }
    if !m.up {
        return match res {
            Some(r) if r.rv == OK => bad(
                "call-allowed:not-initialized",
                format!("{op:?} returned CKR_OK although the library is not initialized"),
            ),
            _ => Ok(vec![m.clone()]),
        };
    }
    // a handle that no call has handed out yet is only a guess, which need
    // not work even if it later turns out to be the handle of that object
    let guess = vars.first().and_then(|s| m.sess.get(s)).is_some_and(|s| {
        vars[1..].iter().any(|h| !m.hmap.contains_key(&(s.slot, *h)) && cx.names.contains_key(&(s.slot, *h)))
    });
    let cx = &Cx { names: cx.names, fault: cx.fault, lenient: cx.lenient || guess };
    match op {
        Op::Open { slot, rw, .. } => {
            let t = m.toks.get(slot);
            let e = match t {
                None => E::Not,
                Some(t) if t.wild => E::May,
                Some(t) if t.login == 2 && !*rw => E::Not,
                Some(t) if !t.init => E::May,
                _ => E::Must,
            };
            let f = |r: &Res| {
                let mut n = m.clone();
                let h = r.h.first().copied().unwrap_or(0);
                if n.sess.contains_key(&h) || !n.used_s.insert(h) || h == 0 {
                    return bad("session-handle-reused", format!("session handle {h}"));
                }
                n.sess.insert(
                    h,
                    Ses {
                        slot: *slot,
                        rw: *rw,
                        find: None,
                    },
                );
                Ok(n)
            };
            return comb(m, f, e, res, cx, "C_OpenSession", "the SO is logged in or the slot does not exist", same);
        }
        Op::CloseAll { slot } => {
            let mut n = m.clone();
            let hs: Vec<u64> = m.sess.iter().filter(|x| x.1.slot == *slot).map(|x| *x.0).collect();
            for h in hs {
                n.drop_session(h);
            }
            let e = match m.toks.get(slot) {
                None => E::Not,
                Some(t) if t.wild => E::May,
                _ => E::Must,
            };
            return comb(m, |_| Ok(n.clone()), e, res, cx, "C_CloseAllSessions", "no such slot", || Some(n.clone()));
        }
        Op::TInfo { slot } => {
            let e = match m.toks.get(slot) {
                None => E::Not,
                Some(t) if t.wild => return Ok(vec![m.clone()]),
                Some(_) => E::Must,
            };
            let f = |r: &Res| {
                let t = &m.toks[slot];
                let fl = r.n[0];
                let is = |f: u64| fl & f != 0;
                if t.init != is(CKF_TOKEN_INITIALIZED) {
                    return bad("token-info", format!("initialized flag, model {}", t.init));
                }
                if let Some(l) = &t.label {
                    let got = r.out.as_ref().map(|h| h.0.clone()).unwrap_or_default();
                    let got = String::from_utf8_lossy(&got).trim_end().to_string();
                    if got != *l {
                        return bad("token-label", format!("label {got:?} expected {l:?}"));
                    }
                }
                if t.init && !t.nss {
                    if t.user.is_some() != is(CKF_USER_PIN_INITIALIZED) {
                        return bad(
                            "token-info-user-pin-flag",
                            format!("user pin initialized flag, model {:?}", t.user),
                        );
                    }
                    if t.user_fail >= 10 && !is(CKF_USER_PIN_LOCKED) {
                        return bad("token-info-locked-flag", "user is locked out".into());
                    }
                    if t.user_fail < 10 && is(CKF_USER_PIN_LOCKED) {
                        return bad("token-info-locked-flag", "user is not locked out".into());
                    }
                }
                let all = m.sess.values().filter(|s| s.slot == *slot).count() as u64;
                let rw = m.sess.values().filter(|s| s.slot == *slot && s.rw).count() as u64;
                if r.n[1] != CK_UNAVAILABLE_INFORMATION && (r.n[1], r.n[2]) != (all, rw) {
                    return bad(
                        "token-info-session-counts",
                        format!("reported {}/{} open {all}/{rw}", r.n[1], r.n[2]),
                    );
                }
                Ok(m.clone())
            };
            return comb(m, f, e, res, cx, "C_GetTokenInfo", "no such slot", same);
        }
        Op::InitToken { slot, pin, label } => {
            let Some(t) = m.toks.get(slot) else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_InitToken", "no such slot", same);
            };
            let sess = m.sess.values().any(|s| s.slot == *slot);
            if sess {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_InitToken", "a session is open", same);
            }
            let mut n = m.clone();
            let gone: Vec<String> = m.objs.iter().filter(|x| x.1.slot == *slot).map(|x| x.0.clone()).collect();
            n.erased.extend(gone);
            n.objs.retain(|_, o| o.slot != *slot);
            n.rebuilt.insert(*slot);
            let nt = n.toks.get_mut(slot).unwrap();
            *nt = Tok {
                init: true,
                label: if t.nss { None } else { Some(label.trim_end().to_string()) },
                so: if t.nss { None } else { Some(pin.clone()) },
                nss: t.nss,
                ..Default::default()
            };
            // known: initialization takes several transactions
            let mut wild = vec![];
            if unsure(res, cx) {
                let mut w = n.clone();
                let x = w.toks.get_mut(slot).unwrap();
                x.wild = true;
                x.label = None;
                x.so = None;
                wild.push(w.tainted("init-token-interrupted"));
            }
            if t.wild {
                return Ok(match res {
                    Some(r) if r.rv == OK => vec![n],
                    _ => vec![m.clone(), n],
                });
            }
            if t.nss && t.init {
                return comb(m, |_| Ok(n.clone()), E::May, res, cx, "C_InitToken", "", || Some(n.clone()));
            }
            if t.init {
                if t.so_fail >= 10 {
                    return comb(m, |_| Ok(n.clone()), E::Not, res, cx, "C_InitToken", "the SO PIN is locked", same);
                }
                if t.so.as_deref() != Some(pin) {
                    return wrong_pin(m, *slot, true, res, cx, "C_InitToken");
                }
            }
            let mut v = comb(m, |_| Ok(n.clone()), E::Must, res, cx, "C_InitToken", "", || Some(n.clone()))?;
            if t.init && unsure(res, cx) {
                // the PIN may have been tried
                let mut a = m.clone();
                a.toks.get_mut(slot).unwrap().so_fail = 0;
                v.push(a);
                let mut b = m.clone();
                b.toks.get_mut(slot).unwrap().so_fail += 1;
                v.push(b);
            }
            v.append(&mut wild);
            return Ok(v);
        }
        _ => {}
    }
    let sh = match vars.first() {
        Some(s) => *s,
        None => return Ok(vec![m.clone()]),
    };
    let Some(ses) = m.sess.get(&sh) else {
        return match res {
            Some(r) if r.rv == OK => bad(
                "call-allowed:invalid-session",
                format!("{op:?} returned CKR_OK although the session is not open"),
            ),
            _ => Ok(vec![m.clone()]),
        };
    };
    let slot = ses.slot;
    let tok = &m.toks[&slot];
    let any = tok.login != 0;
    if tok.wild {
        let mut n = m.clone();
        if let (Op::Close { .. }, Some(r)) = (op, res) {
            if r.rv == OK {
                n.drop_session(sh);
            }
        }
        if let Some(r) = res {
            for (_, _, v) in &r.objs {
                if let Some(l) = lab(v) {
                    if m.erased.contains(&l) {
                        return bad("erased-object-returns", format!("{l} was erased with its token"));
                    }
                }
            }
        }
        return Ok(vec![n]);
    }
    if let (Some(h), Some(r)) = (vars.get(1), res) {
        if r.rv != OK && live(m, slot, *h, cx).is_some_and(|x| x.1.broken) {
            return Ok(vec![m.clone()]);
        }
    }
    match op {
        Op::Close { .. } => {
            let mut n = m.clone();
            n.drop_session(sh);
            comb(m, |_| Ok(n.clone()), E::Must, res, cx, "C_CloseSession", "", || Some(n.clone()))
        }
        Op::SInfo { .. } => {
            let want = match (tok.login, ses.rw) {
                (0, false) => CKS_RO_PUBLIC_SESSION,
                (0, true) => CKS_RW_PUBLIC_SESSION,
                (1, false) => CKS_RO_USER_FUNCTIONS,
                (1, true) => CKS_RW_USER_FUNCTIONS,
                _ => CKS_RW_SO_FUNCTIONS,
            };
            let f = |r: &Res| {
                if r.n[0] != slot {
                    return bad("session-info-slot", format!("slot {} not {slot}", r.n[0]));
                }
                if r.n[1] != want {
                    return bad(
                        &format!("session-state:{}-for-{}", r.n[1], want),
                        format!("state {} where {want} is due (login {}, rw {})", r.n[1], tok.login, ses.rw),
                    );
                }
                if (r.n[2] & CKF_RW_SESSION != 0) != ses.rw {
                    return bad("session-info-flags", format!("flags {}", r.n[2]));
                }
                Ok(m.clone())
            };
            comb(m, f, E::Must, res, cx, "C_GetSessionInfo", "", same)
        }
        Op::Login { u, pin, .. } => {
            let so = match *u {
                CKU_SO => true,
                CKU_USER => false,
                CKU_CONTEXT_SPECIFIC => {
                    // only while an operation waits for it: see the judge of
                    // always-authenticate keys; here it changes no login
                    let right = match tok.login {
                        1 => tok.user.as_deref() == Some(pin) && tok.user_fail < 10,
                        2 => tok.so.as_deref() == Some(pin) && tok.so_fail < 10,
                        _ => false,
                    };
                    if !right {
                        if tok.login == 0 {
                            return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_Login(context)", "nobody is logged in", same);
                        }
                        let mut v = wrong_pin(m, slot, tok.login == 2, res, cx, "C_Login(context)")?;
                        // a PIN that is locked by then ends the login as well
                        match res {
                            Some(r) if r.rv == CKR_PIN_LOCKED as u64 => v.iter_mut().for_each(|n| n.logout(slot)),
                            _ => {}
                        }
                        return Ok(v);
                    }
                    let mut n = m.clone();
                    *n.pinrec(slot, tok.login == 2).1 = 0;
                    return comb(m, |_| Ok(n.clone()), E::May, res, cx, "C_Login(context)", "", || Some(n.clone()));
                }
                _ => return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_Login", "no such user type", same),
            };
            if any {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_Login", "somebody is logged in", same);
            }
            let (rec, fails) = if so { (&tok.so, tok.so_fail) } else { (&tok.user, tok.user_fail) };
            let ro = m.sess.values().any(|s| s.slot == slot && !s.rw);
            let Some(p) = rec else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_Login", "no PIN is set", same);
            };
            if fails >= 10 {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_Login", "the PIN is locked", same);
            }
            if so && ro {
                // whether the PIN was looked at does not matter here
                let mut o = comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_Login(SO)", "a read-only session exists", same)?;
                if p != pin {
                    let mut n = m.clone();
                    n.miss(slot, so);
                    o.push(n);
                }
                return Ok(o);
            }
            if p != pin {
                // known: zero bytes at the end of a PIN make no difference
                if p.trim_end_matches('\0') == pin.trim_end_matches('\0') {
                    let mut v = wrong_pin(m, slot, so, res, cx, "C_Login").unwrap_or_default();
                    let mut n = m.clone();
                    *n.pinrec(slot, so).1 = 0;
                    n.toks.get_mut(&slot).unwrap().login = if so { 2 } else { 1 };
                    v.push(n.tainted("pin-nul-padded"));
                    return Ok(v);
                }
                return wrong_pin(m, slot, so, res, cx, "C_Login");
            }
            let mut n = m.clone();
            *n.pinrec(slot, so).1 = 0;
            n.toks.get_mut(&slot).unwrap().login = if so { 2 } else { 1 };
            // when it fails after a fault the count may have been reset
            let mut half = m.clone();
            *half.pinrec(slot, so).1 = 0;
            let mut o = comb(m, |_| Ok(n.clone()), E::Must, res, cx, "C_Login", "", || Some(n.clone()))?;
            if let Some(r) = res {
                if r.rv != OK {
                    // reported as failed: nobody is logged in
                    o.retain(|x| x.toks[&slot].login == 0);
                    if cx.fault {
                        let mut more = m.clone();
                        more.miss(slot, so);
                        o.push(more);
                        o.push(half);
                    }
                }
            } else {
                let mut more = m.clone();
                more.miss(slot, so);
                o.push(more);
                o.push(half);
            }
            Ok(o)
        }
        Op::Logout { .. } => {
            let mut n = m.clone();
            n.logout(slot);
            let e = if any { E::Must } else { E::Not };
            comb(m, |_| Ok(n.clone()), e, res, cx, "C_Logout", "nobody is logged in", || Some(n.clone()))
        }
        Op::InitPin { pin, .. } => {
            let mut n = m.clone();
            let t = n.toks.get_mut(&slot).unwrap();
            t.user = Some(pin.clone());
            t.user_fail = 0;
            let e = if tok.login == 2 && ses.rw {
                if pin.is_empty() { E::May } else { E::Must }
            } else {
                E::Not
            };
            comb(m, |_| Ok(n.clone()), e, res, cx, "C_InitPIN", "the SO is not logged in", || Some(n.clone()))
        }
        Op::SetPin { old, new, .. } => {
            let so = tok.login == 2;
            if !ses.rw {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_SetPIN", "the session is read-only", same);
            }
            let (rec, fails) = if so { (&tok.so, tok.so_fail) } else { (&tok.user, tok.user_fail) };
            let Some(p) = rec else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_SetPIN", "no PIN is set", same);
            };
            if fails >= 10 {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_SetPIN", "the PIN is locked", same);
            }
            if p != old {
                return wrong_pin(m, slot, so, res, cx, "C_SetPIN");
            }
            let mut n = m.clone();
            {
                let (r, f) = n.pinrec(slot, so);
                *r = Some(new.clone());
                *f = 0;
            }
            let e = if new.len() < 4 { E::May } else { E::Must };
            let mut o = comb(m, |_| Ok(n.clone()), e, res, cx, "C_SetPIN", "", || Some(n.clone()))?;
            if cx.fault || res.is_none() {
                let ok = matches!(res, Some(r) if r.rv == OK);
                if !ok {
                    let mut a = m.clone();
                    *a.pinrec(slot, so).1 = 0;
                    o.push(a);
                    if cx.fault {
                        let mut b = m.clone();
                        b.miss(slot, so);
                        o.push(b);
                    }
                }
            }
            if tok.login == 0 {
                // the PIN is verified by a login and a logout of its own,
                // and a logout ends private session objects
                let mut more = Vec::new();
                for x in &o {
                    let mut y = x.clone();
                    y.logout(slot);
                    if y != *x {
                        more.push(y);
                    }
                }
                o.append(&mut more);
            }
            // known: an NSS token does not encrypt its objects anew
            let mut wild = vec![];
            if tok.nss {
                let mut w = n.clone();
                w.toks.get_mut(&slot).unwrap().wild = true;
                if w.toks[&slot].wild {
                    wild.push(w.tainted("nss-setpin"));
                }
            }
            // a refused change must leave the old PIN
            if let Some(r) = res {
                if r.rv != OK {
                    let keep = rec.clone();
                    o.retain(|x| {
                        let t = &x.toks[&slot];
                        (if so { &t.so } else { &t.user }) == &keep
                    });
                }
            }
            o.append(&mut wild);
            Ok(o)
        }
        Op::Create { t, .. } | Op::GenKey { t, .. } | Op::Derive { t, .. } | Op::Unwrap { t, .. } => {
            let name = match op {
                Op::Create { .. } => "C_CreateObject",
                Op::GenKey { .. } => "C_GenerateKey",
                Op::Derive { .. } => "C_DeriveKey",
                _ => "C_UnwrapKey",
            };
            let mut o = M::newobj(slot, sh, t);
            if matches!(op, Op::GenKey { .. }) {
                o.known.entry(CKA_CLASS).or_insert_with(|| Some(Hx(CKO_SECRET_KEY.to_ne_bytes().to_vec())));
            }
            let tag = tlabel(t).unwrap_or_default();
            let (mut e, mut wn) = may_make(&o, ses, tok);
            if !matches!(op, Op::Create { .. } | Op::GenKey { .. }) && e == E::Must {
                e = E::May;
            }
            if matches!(op, Op::GenKey { .. }) {
                o.as_ok = o.flag(CKA_SENSITIVE) != Some(false);
                o.ne_ok = o.flag(CKA_EXTRACTABLE) != Some(true);
            }
            if let Some(w) = forbidden_claim(t) {
                e = E::Not;
                wn = w;
            }
            // the key it is made with must be usable
            if let (Op::Derive { .. } | Op::Unwrap { .. }, Some(kh)) = (op, vars.get(1)) {
                let usage = if matches!(op, Op::Derive { .. }) { CKA_DERIVE } else { CKA_UNWRAP };
                match m.tag_of(slot, *kh, cx).and_then(|t| m.objs.get(&t)) {
                    Some(k) if m.visible(k, slot) => {
                        let mm = match op {
                            Op::Derive { m, .. } | Op::Unwrap { m, .. } => m.m,
                            _ => 0,
                        };
                        if k.flag(usage) == Some(false) {
                            e = E::Not;
                            wn = "the key does not permit it";
                        } else if !allows(k, mm) {
                            e = E::Not;
                            wn = "the key does not permit the mechanism";
                        }
                        if matches!(op, Op::Derive { .. }) {
                            o.as_ok = k.as_ok && o.flag(CKA_SENSITIVE) != Some(false);
                            o.ne_ok = k.ne_ok && o.flag(CKA_EXTRACTABLE) != Some(true);
                            // what is made of the very value of the key is no
                            // less protected than the key
                            if matches!(
                                mm,
                                CKM_CONCATENATE_BASE_AND_DATA
                                    | CKM_CONCATENATE_DATA_AND_BASE
                                    | CKM_CONCATENATE_BASE_AND_KEY
                                    | CKM_XOR_BASE_AND_DATA
                                    | CKM_EXTRACT_KEY_FROM_KEY
                            ) {
                                match k.flag(CKA_SENSITIVE) {
                                    Some(true) => {
                                        o.known.insert(CKA_SENSITIVE, Some(Hx(vec![1])));
                                        o.as_ok = k.as_ok;
                                    }
                                    None => {
                                        o.known.remove(&CKA_SENSITIVE);
                                        o.as_ok = k.as_ok;
                                    }
                                    _ => {}
                                }
                                match k.flag(CKA_EXTRACTABLE) {
                                    Some(false) => {
                                        o.known.insert(CKA_EXTRACTABLE, Some(Hx(vec![0])));
                                        o.ne_ok = k.ne_ok;
                                    }
                                    None => {
                                        o.known.remove(&CKA_EXTRACTABLE);
                                        o.ne_ok = k.ne_ok;
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    _ => {
                        e = E::Not;
                        wn = "the key is not accessible";
                    }
                }
            }
            let f = |r: &Res| {
                let mut n = m.clone();
                let h = r.h.first().copied().unwrap_or(0);
                if let Some(t) = n.hmap.get(&(slot, h)) {
                    return bad(
                        "handle-reused",
                        format!("new object {tag} got handle {h} which stood for {t}"),
                    );
                }
                n.bind(slot, h, &tag)?;
                n.objs.insert(tag.clone(), o.clone());
                Ok(n)
            };
            let mut v = comb(m, f, e, res, cx, name, wn, || {
                let mut n = m.clone();
                if o.token {
                    n.objs.insert(tag.clone(), o.clone());
                }
                Some(n)
            })?;
            m.half_stored(&tag, &o, res, cx, &mut v);
            m.unlisted(&tag, &mut v);
            Ok(v)
        }
        Op::GenPair { t, t2, .. } => {
            let a = M::newobj(slot, sh, t);
            let mut b = M::newobj(slot, sh, t2);
            let mut a = a;
            a.known.insert(CKA_CLASS, Some(Hx(CKO_PUBLIC_KEY.to_ne_bytes().to_vec())));
            b.known.insert(CKA_CLASS, Some(Hx(CKO_PRIVATE_KEY.to_ne_bytes().to_vec())));
            b.as_ok = b.flag(CKA_SENSITIVE) != Some(false);
            b.ne_ok = b.flag(CKA_EXTRACTABLE) != Some(true);
            let (ta, tb) = (tlabel(t).unwrap_or_default(), tlabel(t2).unwrap_or_default());
            let (e1, w1) = may_make(&a, ses, tok);
            let (e2, w2) = may_make(&b, ses, tok);
            let (e, wn) = match (e1, e2) {
                _ if forbidden_claim(t).or(forbidden_claim(t2)).is_some() => {
                    (E::Not, "the template claims what only the token may")
                }
                (E::Not, _) => (E::Not, w1),
                (_, E::Not) => (E::Not, w2),
                (E::May, _) | (_, E::May) => (E::May, ""),
                _ => (E::Must, ""),
            };
            let f = |r: &Res| {
                let mut n = m.clone();
                for (i, (tag, o)) in [(&ta, &a), (&tb, &b)].iter().enumerate() {
                    let h = r.h.get(i).copied().unwrap_or(0);
                    if let Some(t) = n.hmap.get(&(slot, h)) {
                        return bad("handle-reused", format!("new object {tag} got handle {h} which stood for {t}"));
                    }
                    n.bind(slot, h, tag)?;
                    n.objs.insert(tag.to_string(), (*o).clone());
                }
                Ok(n)
            };
            let mut v = comb(m, f, e, res, cx, "C_GenerateKeyPair", wn, || {
                let mut n = m.clone();
                for (tag, o) in [(&ta, &a), (&tb, &b)] {
                    if o.token {
                        n.objs.insert(tag.to_string(), o.clone());
                    }
                }
                Some(n)
            })?;
            if e != E::Not && a.token && b.token && unsure(res, cx) {
                // known: the halves are stored by separate transactions
                let mut n = m.clone();
                n.objs.insert(ta.clone(), a.clone());
                v.push(n.tainted("half-key-pair"));
                m.half_stored(&ta, &a, res, cx, &mut v);
            }
            m.unlisted(&ta, &mut v);
            m.unlisted(&tb, &mut v);
            Ok(v)
        }
        Op::Copy { t, .. } => {
            let h = vars[1];
            let Some((stag, so)) = live(m, slot, h, cx) else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_CopyObject", "the object is gone or hidden", same);
            };
            let mut o = so.clone();
            for (a, v) in t {
                o.known.insert(*a, Some(Hx(v.bytes())));
            }
            for a in [CKA_UNIQUE_ID, CKA_LOCAL, CKA_KEY_GEN_MECHANISM, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE] {
                o.known.remove(&a);
            }
            o.token = tbool(t, CKA_TOKEN).unwrap_or(so.token);
            o.private = tbool(t, CKA_PRIVATE).unwrap_or(so.private);
            o.sess = if o.token { 0 } else { sh };
            o.known.insert(CKA_TOKEN, Some(Hx(vec![o.token as u8])));
            o.known.insert(CKA_PRIVATE, Some(Hx(vec![o.private as u8])));
            let tag = tlabel(t).unwrap_or_default();
            let (mut e, mut wn) = may_make(&o, ses, tok);
            if e == E::Must && m.sealed(&so) {
                e = E::May;
            }
            if so.flag(CKA_COPYABLE) == Some(false) {
                e = E::Not;
                wn = "the object is not copyable";
            } else if let Some(w) = forbidden_change(&so, t, true, tok.login == 2) {
                e = E::Not;
                wn = w;
            } else if e == E::Must && t.iter().any(|x| !matches!(x.0, CKA_LABEL | CKA_TOKEN | CKA_PRIVATE) && !fits(&so, x.0)) {
                e = E::May;
            }
            let f = |r: &Res| {
                let mut n = m.clone();
                let nh = r.h.first().copied().unwrap_or(0);
                if let Some(t) = n.hmap.get(&(slot, nh)) {
                    return bad("handle-reused", format!("copy {tag} got handle {nh} which stood for {t}"));
                }
                n.bind(slot, h, &stag)?;
                n.bind(slot, nh, &tag)?;
                n.objs.insert(tag.clone(), o.clone());
                Ok(n)
            };
            let mut v = comb(m, f, e, res, cx, "C_CopyObject", wn, || {
                let mut n = m.clone();
                if o.token {
                    n.objs.insert(tag.clone(), o.clone());
                }
                Some(n)
            })?;
            m.half_stored(&tag, &o, res, cx, &mut v);
            m.unlisted(&tag, &mut v);
            Ok(v)
        }
        Op::Destroy { .. } => {
            let h = vars[1];
            let Some((tag, o)) = live(m, slot, h, cx) else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_DestroyObject", "the object is gone or hidden", same);
            };
            let mut n = m.clone();
            n.objs.remove(&tag);
            let (e, wn) = if o.token && !ses.rw {
                (E::Not, "the session is read-only")
            } else if o.flag(CKA_DESTROYABLE) == Some(false) {
                (E::Not, "the object is not destroyable")
            } else if m.sealed(&o) {
                (E::May, "")
            } else {
                (E::Must, "")
            };
            let mut v = comb(m, |_| { let mut n = n.clone(); n.bind(slot, h, &tag)?; Ok(n) }, e, res, cx, "C_DestroyObject", wn, || Some(n.clone()))?;
            m.half_stored(&tag, &o, res, cx, &mut v);
            m.unlisted(&tag, &mut v);
            Ok(v)
        }
        Op::Get { a, .. } => {
            let h = vars[1];
            let Some((tag, o)) = live(m, slot, h, cx) else {
                return match res {
                    Some(_) if m.builtin(slot, h, cx) => Ok(vec![m.clone()]),
                    Some(r) if r.rv == OK || !r.a.is_empty() => bad(
                        "C_GetAttributeValue-allowed:the object is gone or hidden",
                        format!("attributes {:?} returned", r.a.iter().map(|x| fmt_attr(x.0, &x.1)).collect::<Vec<_>>()),
                    ),
                    _ => Ok(vec![m.clone()]),
                };
            };
            let Some(r) = res else { return Ok(vec![m.clone()]) };
            if r.a.is_empty() && !a.is_empty() {
                if cx.fault || cx.lenient || m.sealed(&o) && a.iter().any(|x| is_secret_attr(*x)) {
                    return Ok(vec![m.clone()]);
                }
                return bad(
                    &format!("C_GetAttributeValue-failed:0x{:x}", r.rv),
                    format!("reading {tag} failed with 0x{:x} without reason", r.rv),
                );
            }
            let mut n = m.clone();
            n.bind(slot, h, &tag)?;
            n.observe(&tag, &r.a, r.rv)?;
            Ok(vec![n])
        }
        Op::Set { t, .. } => {
            let h = vars[1];
            let Some((tag, o)) = live(m, slot, h, cx) else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_SetAttributeValue", "the object is gone or hidden", same);
            };
            let (e, wn) = if o.token && !ses.rw {
                (E::Not, "the session is read-only")
            } else if o.flag(CKA_MODIFIABLE) == Some(false) {
                (E::Not, "the object is not modifiable")
            } else if let Some(w) = forbidden_change(&o, t, false, tok.login == 2) {
                (E::Not, w)
            } else if o.token && !any {
                (E::May, "")
            } else if t.iter().all(|x| fits(&o, x.0)) {
                (E::Must, "")
            } else {
                (E::May, "")
            };
            let mut n = m.clone();
            {
                let x = n.objs.get_mut(&tag).unwrap();
                for (a, v) in t {
                    x.known.insert(*a, Some(Hx(v.bytes())));
                }
            }
            let mut v = comb(m, |_| { let mut n = n.clone(); n.bind(slot, h, &tag)?; Ok(n) }, e, res, cx, "C_SetAttributeValue", wn, || Some(n.clone()))?;
            if e != E::Not {
                m.half_stored(&tag, &n.objs[&tag], res, cx, &mut v);
            }
            Ok(v)
        }
        Op::Size { .. } => {
            let h = vars[1];
            let e = match live(m, slot, h, cx) {
                None if m.builtin(slot, h, cx) => E::May,
                None => E::Not,
                Some((_, o)) if m.sealed(&o) => E::May,
                _ => E::Must,
            };
            comb(m, |_| Ok(m.clone()), e, res, cx, "C_GetObjectSize", "the object is gone or hidden", same)
        }
        Op::Probe { .. } => {
            let h = vars[1];
            let Some((tag, _)) = live(m, slot, h, cx) else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "use-of-key", "the object is gone or hidden", same);
            };
            let f = |r: &Res| {
                let mut n = m.clone();
                n.bind(slot, h, &tag)?;
                let o = n.objs.get_mut(&tag).unwrap();
                if let Some(x) = &r.out {
                    match o.known.get(&PROBE) {
                        Some(Some(k)) if k != x => {
                            return bad("key-value-changed", format!("{tag} gives another result than before"));
                        }
                        _ => {
                            o.known.insert(PROBE, Some(x.clone()));
                        }
                    }
                }
                Ok(n)
            };
            let o = &m.objs[&tag];
            let listed = matches!(o.known.get(&CKA_ALLOWED_MECHANISMS), Some(Some(_)));
            let usage = if o.num(CKA_KEY_TYPE) == Some(CKK_AES) || o.num(CKA_KEY_TYPE).is_none() && o.flag(CKA_ENCRYPT).is_some() {
                o.flag(CKA_ENCRYPT)
            } else {
                o.flag(CKA_SIGN)
            };
            let (e, wn) = match usage {
                Some(false) => (E::Not, "the key does not permit it"),
                Some(true) if o.flag(CKA_ALWAYS_AUTHENTICATE) != Some(true) && !m.sealed(o) && !listed => (E::Must, ""),
                _ => (E::May, ""),
            };
            comb(m, f, e, res, cx, "use-of-key", wn, same)
        }
        Op::KInit { f, m: km, .. } | Op::MsgInit { f, m: km, .. } if *f != Fun::Dig => {
            let h = vars[1];
            let Some((_, o)) = live(m, slot, h, cx) else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "start-of-operation", "the key is gone or hidden", same);
            };
            let usage = match f {
                Fun::Enc => CKA_ENCRYPT,
                Fun::Dec => CKA_DECRYPT,
                Fun::Sig => CKA_SIGN,
                _ => CKA_VERIFY,
            };
            let (e, wn) = if o.flag(usage) == Some(false) {
                (E::Not, "the key does not permit it")
            } else if !allows(&o, km.m) {
                (E::Not, "the key does not permit the mechanism")
            } else {
                (E::May, "")
            };
            comb(m, |_| Ok(m.clone()), e, res, cx, "start-of-operation", wn, same)
        }
        Op::DigestKey { .. } => {
            let h = vars[1];
            let e = if live(m, slot, h, cx).is_some() { E::May } else { E::Not };
            comb(m, |_| Ok(m.clone()), e, res, cx, "C_DigestKey", "the key is gone or hidden", same)
        }
        Op::Wrap { m: wm, .. } => {
            let (kh, h) = (vars[1], vars[2]);
            let k = live(m, slot, kh, cx);
            let o = live(m, slot, h, cx);
            let (e, wn) = match (&k, &o) {
                (None, _) | (_, None) => (E::Not, "a key is gone or hidden"),
                (Some((_, k)), _) if k.flag(CKA_WRAP) == Some(false) => (E::Not, "the wrapping key does not permit it"),
                (Some((_, k)), _) if !allows(k, wm.m) => (E::Not, "the wrapping key does not permit the mechanism"),
                (Some((_, k)), Some((_, o)))
                    if o.flag(CKA_WRAP_WITH_TRUSTED) == Some(true) && k.flag(CKA_TRUSTED) != Some(true) =>
                {
                    (E::Not, "the wrapping key is not trusted")
                }
                (_, Some((_, o))) if o.flag(CKA_EXTRACTABLE) == Some(false) => (E::Not, "the key is not extractable"),
                _ => (E::May, ""),
            };
            comb(m, |_| Ok(m.clone()), e, res, cx, "C_WrapKey", wn, same)
        }
        Op::Find { .. } | Op::Locate { .. } | Op::Audit { .. } if ses.find.is_some() => {
            comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_FindObjectsInit", "a search is active", same)
        }
        Op::Find { t, .. } | Op::Locate { t, .. } => {
            let f = |r: &Res| {
                let mut n = m.clone();
                n.check_found(slot, t, &r.h, 0, cx)?;
                Ok(n)
            };
            comb(m, f, searchable(tok, t), res, cx, "C_FindObjects", "", same)
        }
        Op::FindInit { t, .. } => {
            // which objects it stands for is decided now
            let (must, may) = m.expect(slot, t);
            let mut n = m.clone();
            n.sess.get_mut(&sh).unwrap().find = Some(Search { must, may, unk: 0 });
            let e = if ses.find.is_some() { E::Not } else { searchable(tok, t) };
            comb(m, |_| Ok(n.clone()), e, res, cx, "C_FindObjectsInit", "a search is active", same)
        }
        Op::FindNext { n: k, .. } => {
            let Some(rest) = &ses.find else {
                return comb(m, |_| Ok(m.clone()), E::Not, res, cx, "C_FindObjects", "no search is active", same);
            };
            let f = |r: &Res| {
                let mut n = m.clone();
                let mut left = rest.clone();
                for h in &r.h {
                    let Some(tag) = m.tag_of(slot, *h, cx) else {
                        left.unk += 1;
                        continue;
                    };
                    if !left.must.remove(&tag) && !left.may.remove(&tag) {
                        return bad(
                            "search-finds-nonmatching-object",
                            format!("{tag} is not among what the search stands for"),
                        );
                    }
                    n.bind(slot, *h, &tag)?;
                }
                if left.unk > left.must.len() + left.may.len() || r.h.len() > *k as usize {
                    return bad("search-finds-unknown-object", format!("handles {:?}", r.h));
                }
                if r.h.len() < *k as usize && left.must.len() > left.unk {
                    return bad(
                        "search-misses-object",
                        format!("{:?} were due as well", left.must),
                    );
                }
                n.sess.get_mut(&sh).unwrap().find = Some(left);
                Ok(n)
            };
            comb(m, f, E::Must, res, cx, "C_FindObjects", "", same)
        }
        Op::FindFinal { .. } => {
            let e = if ses.find.is_some() { E::Must } else { E::Not };
            let mut n = m.clone();
            n.sess.get_mut(&sh).unwrap().find = None;
            comb(m, |_| Ok(n.clone()), e, res, cx, "C_FindObjectsFinal", "no search is active", || Some(n.clone()))
        }
        Op::Audit { t, .. } => {
            let f = |r: &Res| {
                let mut n = m.clone();
                let mut hs = Vec::new();
                let mut unread = 0;
                for (h, rv, v) in &r.objs {
                    // objects built into the token
                    let cl = v.iter().find(|x| x.0 == CKA_CLASS).and_then(|x| x.1.clone());
                    if let Some(c) = cl {
                        if [CKO_PROFILE, CKO_MECHANISM].iter().any(|k| c.0 == k.to_ne_bytes()) {
                            continue;
                        }
                    }
                    match lab(v) {
                        Some(_) => hs.push(*h),
                        // reading it met the fault
                        None if cx.fault || unread < n.objs.values().filter(|o| o.slot == slot && o.broken).count() => unread += 1,
                        None => {
                            // no label could be read: known by its handle?
                            match m.tag_of(slot, *h, cx) {
                                Some(tag) => {
                                    return bad(
                                        &format!("object-unreadable:0x{rv:x}"),
                                        format!("{tag} is found but cannot be read: 0x{rv:x}"),
                                    );
                                }
                                None => {
                                    return bad(
                                        &format!("object-unreadable:0x{rv:x}"),
                                        format!("an object is found but cannot be read: 0x{rv:x}"),
                                    );
                                }
                            }
                        }
                    }
                }
                let tags = n.check_found(slot, t, &hs, unread, cx)?;
                for (h, rv, v) in &r.objs {
                    let Some(tag) = lab(v) else { continue };
                    if !tags.contains(&tag) {
                        continue;
                    }
                    if !cx.fault
                        && !cx.lenient
                        && ![CKR_OK, CKR_ATTRIBUTE_SENSITIVE, CKR_ATTRIBUTE_TYPE_INVALID, CKR_BUFFER_TOO_SMALL].contains(rv)
                        && !n.objs[&tag].broken
                        && !n.sealed(&n.objs[&tag])
                    {
                        return bad(
                            &format!("object-unreadable:0x{rv:x}"),
                            format!("the value of {tag} (handle {h}) cannot be read: 0x{rv:x}"),
                        );
                    }
                    n.observe(&tag, v, *rv)?;
                }
                Ok(n)
            };
            comb(m, f, E::Must, res, cx, "audit", "", same)
        }
        _ => Ok(vec![m.clone()]),
    }
}

fn wrong_pin(m: &M, slot: u64, so: bool, res: &Option<Res>, cx: &Cx, what: &str) -> Out {
    let mut n = m.clone();
    n.miss(slot, so);
    match res {
        None => Ok(vec![m.clone(), n]),
        Some(r) if r.rv == OK => {
            let locked = *m.clone().pinrec(slot, so).1 >= 10;
            bad(
                &format!("{what}-allowed:{}", if locked { "locked" } else { "wrong PIN" }),
                format!("{what} returned CKR_OK for a wrong PIN"),
            )
        }
        Some(r) => {
            if r.rv == CKR_PIN_INCORRECT as u64 || r.rv == CKR_PIN_LOCKED as u64 {
                // answered: the attempt counts
                Ok(vec![n])
            } else if cx.fault || cx.lenient {
                Ok(vec![m.clone(), n])
            } else {
                // some other reason to refuse it, before the PIN was tried
                Ok(vec![m.clone(), n])
            }
        }
    }
}

fn may_make(o: &Obj, ses: &Ses, tok: &Tok) -> (E, &'static str) {
    if o.token && !ses.rw {
        return (E::Not, "the session is read-only");
    }
    if o.private && tok.login != 1 {
        return if o.token { (E::Not, "no user is logged in") } else { (E::May, "") };
    }
    if o.token && tok.login == 0 {
        return (E::May, "");
    }
    (E::Must, "")
}

/// the change t is one that the attributes of the object forbid
fn forbidden_change(o: &Obj, t: &Tmpl, copy: bool, so: bool) -> Option<&'static str> {
    for (a, v) in t {
        if matches!(o.known.get(a), Some(Some(h)) if h.0 == v.bytes()) {
            // asks for what already is
            continue;
        }
        if *a == CKA_COPYABLE && o.flag(*a) == Some(false) {
            return Some("a key that may not be copied stays so");
        }
        if *a == CKA_TRUSTED && !so && v.bytes() == [1] {
            return Some("only the security officer marks keys as trusted");
        }
        if matches!(o.num(CKA_CLASS), Some(CKO_SECRET_KEY | CKO_PRIVATE_KEY | CKO_PUBLIC_KEY | CKO_OTP_KEY))
            && matches!(*a, CKA_MODULUS | CKA_PUBLIC_EXPONENT | CKA_EC_PARAMS | CKA_EC_POINT | CKA_VALUE_LEN)
        {
            return Some("a component of a key cannot be changed");
        }
        if o.secret() {
            if *a == CKA_SENSITIVE && o.flag(*a) == Some(true) && v.bytes() == [0] {
                return Some("a sensitive key cannot be made readable");
            }
            if *a == CKA_EXTRACTABLE && o.flag(*a) == Some(false) && v.bytes() == [1] {
                return Some("an unextractable key cannot be made extractable");
            }
            if is_secret_attr(*a) {
                return Some("a key value cannot be changed");
            }
        }
        if is_fixed_attr(*a) {
            if copy && matches!(*a, CKA_TOKEN | CKA_PRIVATE | CKA_MODIFIABLE) {
                continue;
            }
            return Some("the attribute is read-only");
        }
    }
    None
}

/// an attribute of such objects that can be changed at any time
fn fits(o: &Obj, a: u64) -> bool {
    let l: &[u64] = match o.num(CKA_CLASS) {
        Some(CKO_DATA) => &[CKA_APPLICATION, CKA_VALUE, CKA_OBJECT_ID],
        Some(CKO_SECRET_KEY) => &[CKA_ID, CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_DERIVE, CKA_START_DATE, CKA_END_DATE],
        Some(CKO_PUBLIC_KEY) => &[CKA_ID, CKA_ENCRYPT, CKA_VERIFY, CKA_START_DATE, CKA_END_DATE, CKA_SUBJECT],
        Some(CKO_PRIVATE_KEY) => &[CKA_ID, CKA_DECRYPT, CKA_SIGN, CKA_START_DATE, CKA_END_DATE, CKA_SUBJECT],
        Some(CKO_OTP_KEY) => &[CKA_ID, CKA_START_DATE, CKA_END_DATE],
        Some(CKO_CERTIFICATE) => &[CKA_ID],
        Some(CKO_TRUST) => crate::wl::TRUSTS,
        _ => &[],
    };
    l.contains(&a)
}

/// a template that makes a key may not claim what only the token knows
fn forbidden_claim(t: &Tmpl) -> Option<&'static str> {
    for (a, _) in t {
        if matches!(*a, CKA_LOCAL | CKA_ALWAYS_SENSITIVE | CKA_NEVER_EXTRACTABLE | CKA_KEY_GEN_MECHANISM | CKA_UNIQUE_ID) {
            return Some("the template claims what only the token may");
        }
    }
    if tbool(t, CKA_TRUSTED) == Some(true) {
        return Some("only the security officer marks keys as trusted");
    }
    None
}

/// the mechanism is not excluded by the list of the key
fn allows(o: &Obj, m: u64) -> bool {
    match o.known.get(&CKA_ALLOWED_MECHANISMS) {
        Some(Some(h)) => h.0.chunks(8).any(|c| c == m.to_ne_bytes()),
        _ => true,
    }
}

/// NSS tokens refuse searches by values that they store encrypted
fn searchable(t: &Tok, tm: &Tmpl) -> E {
    if t.nss && tm.iter().any(|x| is_secret_attr(x.0)) { E::May } else { E::Must }
}

fn live(m: &M, slot: u64, h: u64, cx: &Cx) -> Option<(String, Obj)> {
    let tag = m.tag_of(slot, h, cx)?;
    let o = m.objs.get(&tag)?;
    if m.visible(o, slot) {
        Some((tag, o.clone()))
    } else {
        None
    }
}

/// labels behind the handles of one incarnation, from what the calls returned;
/// an error if the history shows two labels for one handle
pub fn names(plan: &Plan, inc: &IncOut) -> Result<Names, Why> {
    let ops = plan.ops();
    let mut n = Names::new();
    let mut slots: HashMap<u64, u64> = HashMap::new();
    let mut put = |k: (u64, u64), t: String| -> Result<(), Why> {
        if let Some(o) = n.get(&k) {
            if *o != t {
                return bad(
                    "handle-reused",
                    format!("handle {} stands for {o} and for {t}", k.1),
                );
            }
        }
        n.insert(k, t);
        Ok(())
    };
    let mut fini = 0u64;
    for c in inc.calls() {
        let Some(r) = &c.res else { continue };
        if r.rv == SKIP {
            continue;
        }
        match &ops[&c.id].op {
            Op::Fini if r.rv == OK => fini += 1,
            Op::Open { slot, .. } if r.rv == OK => {
                slots.insert(r.h[0], *slot);
            }
            Op::Create { t, .. }
            | Op::GenKey { t, .. }
            | Op::Derive { t, .. }
            | Op::Unwrap { t, .. }
            | Op::Copy { t, .. }
                if r.rv == OK && fini == 0 =>
            {
                if let (Some(s), Some(l)) = (slots.get(&c.vars[0]), tlabel(t)) {
                    put((*s, r.h[0]), l)?;
                }
            }
            Op::GenPair { t, t2, .. } if r.rv == OK && fini == 0 => {
                if let Some(s) = slots.get(&c.vars[0]) {
                    for (i, t) in [t, t2].iter().enumerate() {
                        if let Some(l) = tlabel(t) {
                            put((*s, r.h[i]), l)?;
                        }
                    }
                }
            }
            Op::Audit { .. } if fini == 0 => {
                if let Some(s) = slots.get(&c.vars[0]) {
                    for (h, _, v) in &r.objs {
                        if let Some(l) = lab(v) {
                            put((*s, *h), l)?;
                        }
                    }
                }
            }
            Op::Get { .. } if fini == 0 => {
                if let (Some(s), Some(l)) = (slots.get(&c.vars[0]), lab(&r.a)) {
                    put((*s, c.vars[1]), l)?;
                }
            }
            Op::Locate { t, .. } if r.rv == OK && fini == 0 && r.h.len() == 1 => {
                if let (Some(s), Some(l)) = (slots.get(&c.vars[0]), tlabel(t)) {
                    put((*s, r.h[0]), l)?;
                }
            }
            _ => {}
        }
    }
    Ok(n)
}
