//! Building blocks of workload generators.
use crate::plan::*;
use crate::rng::Rng;
use crate::sched::SchedSpec;
use kryoptic_lib::pkcs11::*;

pub const SO: &str = "sopin-0001";
pub const USER: &str = "userpin-0001";
pub const LABEL: &str = "tok";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Data,
    Aes,
    Gen,
    Rsa,
    EcPub,
    EcPriv,
    /// imported private keys
    RsaPriv,
    EcImp,
    Otp,
    Cert,
    Trust,
}
impl K {
    fn private(self) -> bool {
        matches!(self, K::EcPriv | K::EcImp | K::RsaPriv)
    }
    pub fn key(self) -> bool {
        !matches!(self, K::Data | K::Cert | K::Trust)
    }
}

/// what a trust object says about a certificate, one value per use
pub const TRUSTS: &[u64] = &[
    CKA_TRUST_SERVER_AUTH,
    CKA_TRUST_CLIENT_AUTH,
    CKA_TRUST_CODE_SIGNING,
    CKA_TRUST_EMAIL_PROTECTION,
    CKA_TRUST_IPSEC_IKE,
    CKA_TRUST_TIME_STAMPING,
    CKA_TRUST_OCSP_SIGNING,
];

#[derive(Clone, Debug)]
pub struct GO {
    pub v: V,
    pub slot: u64,
    pub k: K,
    pub token: bool,
    pub private: bool,
    pub label: String,
    /// what it was made with
    pub t: Tmpl,
}

pub struct G {
    pub r: Rng,
    pub p: Plan,
    id: u32,
    nv: V,
    lab: u32,
    pub objs: Vec<GO>,
    pub thorough: bool,
    /// shares of the kinds of new objects
    pub kinds: Vec<K>,
    /// chance in % that a new object is a token / private object
    pub token_pct: u64,
    pub private_pct: u64,
    pub keep_secrets: bool,
    /// values of session objects must not reach the disk
    pub keep_session: bool,
    /// chance in % that a template asks for something forbidden
    pub evil: u64,
    /// chance in % that a new object is not modifiable, copyable, destroyable
    pub fixed: u64,
    /// how often less common attributes are given, in percent
    pub odd: u64,
    /// random usage attributes and lists of allowed mechanisms
    pub usage: bool,
    /// searches by all kinds of attributes, some shared by several objects
    pub rich: bool,
    /// share in % of keys that are sensitive / unextractable from the start
    pub hide: u64,
    /// key pairs of all types
    pub pairs: bool,
    /// wrapped keys
    pub blobs: Vec<(V, K, Mech, V)>,
}

pub const P256: &[u8] = &[0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];

pub fn m(m: u64) -> Mech {
    Mech { m, p: Par::None }
}

/// weights of object operations
#[derive(Clone, Debug)]
pub struct W {
    pub create: u32,
    pub genkey: u32,
    pub genpair: u32,
    pub copy: u32,
    pub set: u32,
    pub destroy: u32,
    pub get: u32,
    pub find: u32,
    pub probe: u32,
    pub size: u32,
    pub audit: u32,
}
impl W {
    /// only what takes a single call
    pub fn single(&self) -> W {
        W {
            find: 0,
            probe: 0,
            audit: 0,
            ..self.clone()
        }
    }
}
pub const WOBJ: W = W {
    create: 8,
    genkey: 3,
    genpair: 1,
    copy: 4,
    set: 6,
    destroy: 5,
    get: 4,
    find: 3,
    probe: 2,
    size: 1,
    audit: 0,
};
pub const WCHANGE: W = W {
    create: 8,
    genkey: 3,
    genpair: 1,
    copy: 4,
    set: 7,
    destroy: 5,
    get: 1,
    find: 1,
    probe: 1,
    size: 0,
    audit: 0,
};

impl G {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> G {
        let odd = if seed % 3 == 0 { 40 } else { 0 };
        G {
            odd,
            r: Rng::new(seed),
            p: Plan {
                prop: prop.into(),
                seed,
                ..Default::default()
            },
            id: 1,
            nv: 1,
            lab: 0,
            objs: vec![],
            thorough,
            kinds: vec![K::Data, K::Data, K::Aes, K::Aes, K::Gen, K::Rsa, K::Cert, K::Trust],
            token_pct: 80,
            private_pct: 60,
            keep_secrets: false,
            keep_session: false,
            evil: 0,
            fixed: 0,
            usage: false,
            rich: false,
            hide: 0,
            blobs: vec![],
            pairs: false,
        }
    }
    pub fn op(&mut self, op: Op) -> OpRec {
        let id = self.id;
        self.id += 1;
        OpRec {
            id,
            op,
            must: false,
            tag: 0,
        }
    }
    pub fn v(&mut self) -> V {
        self.nv += 1;
        self.nv
    }
    pub fn label(&mut self) -> String {
        self.lab += 1;
        format!("o{}", self.lab)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.r.chance(p, 100)
    }
    pub fn knob(&mut self, k: &str, v: i64) {
        self.p.knobs.insert(k.into(), v);
    }
    pub fn secret(&mut self, what: &str, v: &[u8], token: bool) {
        if self.keep_secrets || self.keep_session && !token && v.len() >= 16 {
            // pieces: a part in clear is too much already
            let n = v.len();
            let mut at: Vec<usize> = vec![0, n.saturating_sub(16)];
            if n > 40 {
                at.push(n / 2 - 8);
            }
            if n <= 20 {
                at = vec![0];
            }
            for i in at {
                self.p.secrets.push((what.into(), v[i..n.min(i + if n <= 20 { n } else { 16 })].into()));
            }
        }
    }

    // ------------------------------------------------------------ templates

    pub fn base(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        vec![
            (CKA_TOKEN, AV::B(token)),
            (CKA_PRIVATE, AV::B(private)),
            (CKA_LABEL, x(label)),
        ]
    }
    /// attributes that tie the object down
    pub fn fix(&mut self, t: &mut Tmpl, copy: bool) {
        let f = self.fixed;
        for a in [CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE] {
            if self.pct(f) && !(copy && a == CKA_COPYABLE) {
                let b = self.pct(15);
                t.push((a, AV::B(b)));
            }
        }
    }
    pub fn some_id(&mut self) -> AV {
        if self.rich && self.pct(70) {
            AV::X(Hx(vec![b'i', b'd', self.r.below(3) as u8]))
        } else {
            let n = 1 + self.r.idx(8);
            AV::X(Hx(self.r.bytes(n)))
        }
    }
    /// usage attributes of a key, all of them spelt out
    pub fn uses(&mut self, t: &mut Tmpl, k: K, public: bool) {
        if !self.usage {
            return;
        }
        let list: &[u64] = match (k, public) {
            (K::Aes, _) | (K::Gen, _) => &[CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE],
            (_, true) => &[CKA_ENCRYPT, CKA_VERIFY, CKA_WRAP],
            _ => &[CKA_DECRYPT, CKA_SIGN, CKA_UNWRAP, CKA_DERIVE],
        };
        t.retain(|x| !list.contains(&x.0));
        let p = *self.r.pick(&[30u64, 60, 85]);
        for a in list {
            let b = self.pct(p);
            t.push((*a, AV::B(b)));
        }
        if self.pct(25) {
            let v: Vec<u64> = match k {
                K::Aes => vec![CKM_AES_CBC, CKM_AES_ECB, CKM_AES_CMAC, CKM_AES_KEY_WRAP, CKM_AES_CBC_PAD, CKM_AES_ECB_ENCRYPT_DATA, CKM_AES_GCM],
                K::Gen => vec![CKM_SHA256_HMAC, CKM_SHA512_HMAC, CKM_HKDF_DERIVE, CKM_CONCATENATE_BASE_AND_DATA],
                K::Rsa | K::RsaPriv => vec![CKM_SHA256_RSA_PKCS, CKM_RSA_PKCS, CKM_RSA_PKCS_OAEP],
                _ => vec![CKM_ECDSA, CKM_ECDSA_SHA256, CKM_ECDH1_DERIVE],
            };
            let mut l: Vec<u64> = v.into_iter().filter(|_| self.r.chance(1, 2)).collect();
            // nothing at all is in an empty list
            if l.is_empty() && self.r.chance(1, 2) {
                l.push(CKM_DES3_CBC);
            }
            t.push((CKA_ALLOWED_MECHANISMS, AV::L(l)));
        }
        if !public && self.pct(8) {
            t.push((CKA_WRAP_WITH_TRUSTED, AV::B(true)));
        }
    }
    /// something no template may ask for
    pub fn forbidden(&mut self, k: K, how: u8) -> (u64, AV) {
        let mut v: Vec<(u64, AV)> = vec![(CKA_UNIQUE_ID, x("12345"))];
        if how != 0 {
            v.push((CKA_CLASS, AV::U(if !k.key() { CKO_SECRET_KEY } else { CKO_DATA })));
        }
        if how == 1 {
            let b = self.pct(50);
            v.push((CKA_TOKEN, AV::B(b)));
            v.push((CKA_PRIVATE, AV::B(b)));
            v.push((CKA_MODIFIABLE, AV::B(b)));
            v.push((CKA_COPYABLE, AV::B(true)));
        }
        if k.key() {
            v.push((CKA_LOCAL, AV::B(true)));
            v.push((CKA_KEY_GEN_MECHANISM, AV::U(CKM_AES_KEY_GEN)));
            if how != 0 {
                v.push((CKA_KEY_TYPE, AV::U(if k == K::Gen { CKK_AES } else { CKK_GENERIC_SECRET })));
            }
            match k {
                K::Aes | K::Gen | K::EcPriv | K::EcImp | K::RsaPriv => {
                    v.push((CKA_ALWAYS_SENSITIVE, AV::B(true)));
                    v.push((CKA_NEVER_EXTRACTABLE, AV::B(true)));
                    if how != 0 {
                        v.push((CKA_SENSITIVE, AV::B(false)));
                        v.push((CKA_SENSITIVE, AV::B(false)));
                        v.push((CKA_EXTRACTABLE, AV::B(true)));
                        v.push((CKA_EXTRACTABLE, AV::B(true)));
                        let b = self.r.bytes(if k.private() { 32 } else { 16 });
                        v.push((if k == K::RsaPriv { CKA_PRIVATE_EXPONENT } else { CKA_VALUE }, xb(&b)));
                    }
                }
                K::Rsa if how != 0 => {
                    let b = self.r.bytes(128);
                    v.push((CKA_MODULUS, xb(&b)));
                    v.push((CKA_TRUSTED, AV::B(true)));
                }
                K::EcPub if how != 0 => v.push((CKA_EC_POINT, xb(&[4, 65, 4, 1]))),
                _ => {}
            }
            if k == K::Aes {
                v.push((CKA_TRUSTED, AV::B(true)));
            }
        }
        self.r.pick(&v).clone()
    }
    /// with some chance adds a forbidden request, mostly after the others
    pub fn tempt(&mut self, t: &mut Tmpl, k: K, how: u8) {
        let e = if how == 0 { self.evil / 4 } else { self.evil };
        if !self.pct(e) {
            return;
        }
        let f = self.forbidden(k, how);
        if t.iter().any(|z| z.0 == f.0) {
            return;
        }
        if self.pct(75) {
            t.push(f);
        } else {
            t.insert(0, f);
        }
    }
    pub fn dlen(&mut self) -> usize {
        match self.r.below(8) {
            0 => 0,
            1..=4 => self.r.idx(40) + 1,
            5 | 6 => self.r.idx(600) + 1,
            _ => self.r.idx(2990) + 1,
        }
    }
    pub fn data(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let n = self.dlen();
        let v = self.r.bytes(n);
        t.push((CKA_CLASS, AV::U(CKO_DATA)));
        t.push((CKA_VALUE, xb(&v)));
        if self.pct(60) {
            let n = self.r.idx(12) + 1;
            let s: String = (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect();
            t.push((CKA_APPLICATION, x(&s)));
        }
        t
    }
    pub fn sens(&mut self, t: &mut Tmpl) {
        let h = self.hide;
        if h > 0 {
            let (a, b) = match self.r.below(3) {
                0 => (true, false),
                1 => (true, true),
                _ => (false, false),
            };
            let hidden = self.pct(h);
            t.push((CKA_SENSITIVE, AV::B(if hidden { a } else { false })));
            t.push((CKA_EXTRACTABLE, AV::B(if hidden { b } else { true })));
            return;
        }
        if self.pct(70) {
            let s = self.pct(60);
            t.push((CKA_SENSITIVE, AV::B(s)));
        }
        if self.pct(70) {
            let e = self.pct(60);
            t.push((CKA_EXTRACTABLE, AV::B(e)));
        }
    }
    pub fn aes(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let n = *self.r.pick(&[16usize, 24, 32]);
        let v = self.r.bytes(n);
        self.secret(label, &v, token);
        let id = self.some_id();
        t.push((CKA_CLASS, AV::U(CKO_SECRET_KEY)));
        t.push((CKA_KEY_TYPE, AV::U(CKK_AES)));
        t.push((CKA_VALUE, xb(&v)));
        t.push((CKA_ID, id));
        t.push((CKA_ENCRYPT, AV::B(true)));
        t.push((CKA_DECRYPT, AV::B(true)));
        self.sens(&mut t);
        self.uses(&mut t, K::Aes, false);
        t
    }
    pub fn generic(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let n = self.r.idx(48) + 16;
        let v = self.r.bytes(n);
        self.secret(label, &v, token);
        t.push((CKA_CLASS, AV::U(CKO_SECRET_KEY)));
        t.push((CKA_KEY_TYPE, AV::U(CKK_GENERIC_SECRET)));
        t.push((CKA_VALUE, xb(&v)));
        t.push((CKA_SIGN, AV::B(true)));
        t.push((CKA_VERIFY, AV::B(true)));
        if self.rich {
            let id = self.some_id();
            t.push((CKA_ID, id));
        }
        self.sens(&mut t);
        self.uses(&mut t, K::Gen, false);
        t
    }
    pub fn rsapub(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let mut n = self.r.bytes(128);
        n[0] |= 0x80;
        n[127] |= 1;
        t.push((CKA_CLASS, AV::U(CKO_PUBLIC_KEY)));
        t.push((CKA_KEY_TYPE, AV::U(CKK_RSA)));
        t.push((CKA_MODULUS, xb(&n)));
        t.push((CKA_PUBLIC_EXPONENT, xb(&[1, 0, 1])));
        t.push((CKA_VERIFY, AV::B(true)));
        self.uses(&mut t, K::Rsa, true);
        t
    }
    pub fn rsapriv(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let k = self.r.pick(crate::keys::RSA);
        t.push((CKA_CLASS, AV::U(CKO_PRIVATE_KEY)));
        t.push((CKA_KEY_TYPE, AV::U(CKK_RSA)));
        t.push((CKA_PUBLIC_EXPONENT, xb(&[1, 0, 1])));
        for (a, v) in [
            CKA_MODULUS,
            CKA_PRIVATE_EXPONENT,
            CKA_PRIME_1,
            CKA_PRIME_2,
            CKA_EXPONENT_1,
            CKA_EXPONENT_2,
            CKA_COEFFICIENT,
        ]
        .iter()
        .zip(k)
        {
            let v = unhex(v).unwrap();
            if *a != CKA_MODULUS {
                self.secret(&format!("{label}/{a:x}"), &v, token);
            }
            t.push((*a, xb(&v)));
        }
        t.push((CKA_SIGN, AV::B(true)));
        t.push((CKA_DECRYPT, AV::B(true)));
        let id = self.some_id();
        t.push((CKA_ID, id));
        self.sens(&mut t);
        self.uses(&mut t, K::RsaPriv, false);
        t
    }
    pub fn ecimp(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let mut v = self.r.bytes(32);
        v[0] = 0x40 | v[0] & 0x3f;
        self.secret(label, &v, token);
        t.push((CKA_CLASS, AV::U(CKO_PRIVATE_KEY)));
        t.push((CKA_KEY_TYPE, AV::U(CKK_EC)));
        t.push((CKA_EC_PARAMS, xb(P256)));
        t.push((CKA_VALUE, xb(&v)));
        t.push((CKA_SIGN, AV::B(true)));
        let id = self.some_id();
        t.push((CKA_ID, id));
        self.sens(&mut t);
        self.uses(&mut t, K::EcPriv, false);
        t
    }
    pub fn otp(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let n = *self.r.pick(&[20usize, 32, 64]);
        let v = self.r.bytes(n);
        self.secret(label, &v, token);
        t.push((CKA_CLASS, AV::U(CKO_OTP_KEY)));
        t.push((CKA_KEY_TYPE, AV::U(CKK_HOTP)));
        t.push((CKA_VALUE, xb(&v)));
        t.push((CKA_OTP_LENGTH, AV::U(8)));
        t.push((CKA_OTP_COUNTER, xb(&[0; 8])));
        t
    }
    pub fn cert(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let n = self.dlen() + 1;
        let v = self.r.bytes(n);
        let (subject, issuer, serial) = (self.r.bytes(12), self.r.bytes(9), self.r.bytes(4));
        let id = self.some_id();
        t.push((CKA_CLASS, AV::U(CKO_CERTIFICATE)));
        t.push((CKA_CERTIFICATE_TYPE, AV::U(CKC_X_509)));
        t.push((CKA_SUBJECT, xb(&subject)));
        t.push((CKA_ISSUER, xb(&issuer)));
        t.push((CKA_SERIAL_NUMBER, xb(&serial)));
        t.push((CKA_VALUE, xb(&v)));
        t.push((CKA_ID, id));
        t
    }
    pub fn trust(&mut self, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = self.base(token, private, label);
        let (issuer, hash) = (self.r.bytes(9), self.r.bytes(20));
        // one trust object per certificate
        let serial = label.as_bytes().to_vec();
        t.push((CKA_CLASS, AV::U(CKO_TRUST)));
        t.push((CKA_ISSUER, xb(&issuer)));
        t.push((CKA_SERIAL_NUMBER, xb(&serial)));
        t.push((CKA_HASH_OF_CERTIFICATE, xb(&hash)));
        t.push((CKA_NAME_HASH_ALGORITHM, AV::U(CKM_SHA_1)));
        for a in TRUSTS {
            if self.pct(40) {
                let v = *self.r.pick(&[CKT_TRUSTED, CKT_TRUST_ANCHOR, CKT_NOT_TRUSTED, CKT_TRUST_MUST_VERIFY_TRUST]);
                t.push((*a, AV::U(v)));
            }
        }
        t
    }
    pub fn tmpl(&mut self, k: K, token: bool, private: bool, label: &str) -> Tmpl {
        let mut t = match k {
            K::Data => self.data(token, private, label),
            K::Aes => self.aes(token, private, label),
            K::Gen => self.generic(token, private, label),
            K::RsaPriv => self.rsapriv(token, private, label),
            K::EcImp => self.ecimp(token, private, label),
            K::Otp => self.otp(token, private, label),
            K::Cert => self.cert(token, private, label),
            K::Trust => self.trust(token, private, label),
            _ => self.rsapub(token, private, label),
        };
        if self.pct(self.odd) {
            let (a, v) = self.extra(k);
            if a != CKA_LABEL {
                t.retain(|x| x.0 != a);
                t.push((a, v));
            }
        }
        self.fix(&mut t, false);
        self.tempt(&mut t, k, 0);
        t
    }
    /// a less common attribute that such an object may have
    fn extra(&mut self, k: K) -> (u64, AV) {
        const STRINGS: &[&str] = &["", "a\0b", "\0", "\u{e9}\u{1f511}", "'; --", "1", "%"];
        match (k, self.r.below(4)) {
            (K::Trust, _) => (CKA_LABEL, AV::B(true)),
            (K::Data, 0 | 1) => {
                let n = self.r.idx(30);
                let b = self.r.bytes(n);
                (CKA_OBJECT_ID, xb(&b))
            }
            (K::Data, _) => {
                let s = *self.r.pick(STRINGS);
                (CKA_APPLICATION, x(s))
            }
            (K::Rsa | K::RsaPriv | K::EcPriv | K::EcImp, 0) => {
                let n = self.r.idx(60) + 1;
                let b = self.r.bytes(n);
                (CKA_SUBJECT, xb(&b))
            }
            (_, 0 | 1) => {
                let n = 1000 + self.r.idx(2900);
                let b = self.r.bytes(n);
                (CKA_ID, xb(&b))
            }
            (K::Cert, _) => (CKA_LABEL, AV::B(true)),
            _ => {
                let d = format!("{:04}{:02}{:02}", 1970 + self.r.below(100), 1 + self.r.below(12), 1 + self.r.below(28));
                (*self.r.pick(&[CKA_START_DATE, CKA_END_DATE]), x(&d))
            }
        }
    }
    fn made(&mut self, v: V, t: &Tmpl) {
        if let Some(o) = self.objs.iter_mut().find(|o| o.v == v) {
            o.t = t.clone();
        }
    }

    // ----------------------------------------------------------- operations

    pub fn new_obj(&mut self, slot: u64, k: K, token: bool, private: bool) -> (V, String) {
        let v = self.v();
        let label = self.label();
        self.objs.push(GO {
            v,
            slot,
            k,
            token,
            private,
            label: label.clone(),
            t: vec![],
        });
        (v, label)
    }
    pub fn create_k(&mut self, s: V, slot: u64, k: K, token: bool, private: bool) -> Op {
        let (o, l) = self.new_obj(slot, k, token, private);
        let t = self.tmpl(k, token, private, &l);
        self.made(o, &t);
        Op::Create { s, o, t }
    }
    pub fn create(&mut self, s: V, slot: u64) -> Op {
        let ks = self.kinds.clone();
        let k = *self.r.pick(&ks);
        let tp = self.token_pct;
        let pp = self.private_pct;
        let token = self.pct(tp);
        let private = self.pct(pp);
        self.create_k(s, slot, k, token, private)
    }
    pub fn genkey_k(&mut self, s: V, slot: u64, token: bool, private: bool) -> Op {
        let (o, l) = self.new_obj(slot, K::Aes, token, private);
        let mut t = self.base(token, private, &l);
        t.push((CKA_VALUE_LEN, AV::U(*self.r.pick(&[16u64, 32]))));
        t.push((CKA_ENCRYPT, AV::B(true)));
        t.push((CKA_DECRYPT, AV::B(true)));
        if self.rich {
            let id = self.some_id();
            t.push((CKA_ID, id));
        }
        self.sens(&mut t);
        self.uses(&mut t, K::Aes, false);
        self.fix(&mut t, false);
        self.tempt(&mut t, K::Aes, 0);
        self.made(o, &t);
        Op::GenKey {
            s,
            o,
            m: m(CKM_AES_KEY_GEN),
            t,
        }
    }
    pub fn genpair_k(&mut self, s: V, slot: u64, token: bool, private: bool) -> Op {
        // the halves need not live in the same place
        let ptoken = if self.pct(30) { !token } else { token };
        let pprivate = self.pct(10);
        let (o, l) = self.new_obj(slot, K::EcPub, ptoken, pprivate);
        let (o2, l2) = self.new_obj(slot, K::EcPriv, token, private);
        let mut t = self.base(ptoken, pprivate, &l);
        t.push((CKA_EC_PARAMS, xb(P256)));
        t.push((CKA_VERIFY, AV::B(true)));
        let mut t2 = self.base(token, private, &l2);
        t2.push((CKA_SIGN, AV::B(true)));
        self.sens(&mut t2);
        self.uses(&mut t, K::EcPub, true);
        self.uses(&mut t2, K::EcPriv, false);
        self.fix(&mut t, false);
        self.fix(&mut t2, false);
        self.tempt(&mut t2, K::EcPriv, 0);
        let mut mm = CKM_EC_KEY_PAIR_GEN;
        if self.pairs {
            let i = t.iter().position(|x| x.0 == CKA_EC_PARAMS).unwrap();
            let k = self.r.below(8);
            if matches!(k, 4 | 5) {
                t.retain(|x| !matches!(x.0, CKA_VERIFY | CKA_ENCRYPT | CKA_WRAP));
                t2.retain(|x| !matches!(x.0, CKA_SIGN | CKA_DECRYPT | CKA_UNWRAP | CKA_DERIVE));
                t2.push((CKA_DERIVE, AV::B(true)));
            }
            match k {
                2 | 3 => t[i].1 = xb(&[0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x22 + (k & 1) as u8]),
                4 => {
                    mm = CKM_EC_MONTGOMERY_KEY_PAIR_GEN;
                    t[i].1 = xb(&unhex("130a63757276653235353139").unwrap());
                }
                5 => {
                    mm = CKM_DH_PKCS_KEY_PAIR_GEN;
                    t[i] = (CKA_PRIME, xb(&unhex(crate::keys::FFDHE2048).unwrap()));
                    t.push((CKA_BASE, xb(&[2])));
                }
                6 => {
                    mm = CKM_RSA_PKCS_KEY_PAIR_GEN;
                    t[i] = (CKA_MODULUS_BITS, AV::U(1024));
                    t.push((CKA_PUBLIC_EXPONENT, xb(&[1, 0, 1])));
                }
                _ => {}
            }
        }
        self.made(o, &t);
        self.made(o2, &t2);
        Op::GenPair {
            s,
            o,
            o2,
            m: m(mm),
            t,
            t2,
        }
    }
    pub fn pick_obj(&mut self, slot: u64) -> Option<GO> {
        let v: Vec<GO> = self.objs.iter().filter(|o| o.slot == slot).cloned().collect();
        if v.is_empty() {
            return None;
        }
        // prefer recent ones a little
        let i = if self.pct(40) {
            v.len() - 1 - self.r.idx(v.len().min(3))
        } else {
            self.r.idx(v.len())
        };
        Some(v[i].clone())
    }
    /// attributes to change
    pub fn change(&mut self, k: K) -> Tmpl {
        let mut t = Tmpl::new();
        let n = 1 + self.r.idx(3);
        for _ in 0..n {
            let (a, v): (u64, AV) = match k {
                _ if self.odd > 0 && !matches!(k, K::Trust | K::Cert) && self.pct(20) => self.extra(k),
                _ if self.fixed > 0 && self.pct(15) => {
                    let a = *self.r.pick(&[CKA_DESTROYABLE, CKA_COPYABLE]);
                    let b = a == CKA_DESTROYABLE && self.pct(30);
                    (a, AV::B(b))
                }
                K::Aes | K::Gen | K::EcPriv | K::EcImp | K::RsaPriv if self.usage && self.pct(60) => {
                    let l: &[u64] = if k.private() {
                        &[CKA_SIGN, CKA_DERIVE, CKA_DECRYPT, CKA_UNWRAP]
                    } else {
                        &[CKA_ENCRYPT, CKA_DECRYPT, CKA_SIGN, CKA_VERIFY, CKA_WRAP, CKA_UNWRAP, CKA_DERIVE]
                    };
                    let a = *self.r.pick(l);
                    let b = self.pct(45);
                    (a, AV::B(b))
                }
                K::Aes | K::Gen | K::EcPriv | K::EcImp | K::RsaPriv if self.hide > 0 && self.pct(30) => {
                    if self.pct(50) { (CKA_SENSITIVE, AV::B(true)) } else { (CKA_EXTRACTABLE, AV::B(false)) }
                }
                K::Data => {
                    if self.pct(60) {
                        let n = self.dlen();
                        let b = self.r.bytes(n);
                        (CKA_VALUE, xb(&b))
                    } else {
                        let n = self.r.idx(10);
                        let b = self.r.bytes(n).iter().map(|c| b'a' + c % 26).collect::<Vec<u8>>();
                        (CKA_APPLICATION, xb(&b))
                    }
                }
                K::Aes => match self.r.below(5) {
                    0 => {
                        let b = self.pct(60);
                        (CKA_ENCRYPT, AV::B(b))
                    }
                    1 => {
                        let b = self.pct(60);
                        (CKA_DECRYPT, AV::B(b))
                    }
                    2 if self.pct(30) => (CKA_SENSITIVE, AV::B(true)),
                    3 if self.pct(30) => (CKA_EXTRACTABLE, AV::B(false)),
                    _ => {
                        let n = if self.pct(15) { 0 } else { self.r.idx(20) + 1 };
                        let b = self.r.bytes(n);
                        (CKA_ID, xb(&b))
                    }
                },
                K::Trust => {
                    let a = *self.r.pick(TRUSTS);
                    let v = *self.r.pick(&[CKT_TRUSTED, CKT_TRUST_ANCHOR, CKT_NOT_TRUSTED, CKT_TRUST_MUST_VERIFY_TRUST]);
                    (a, AV::U(v))
                }
                K::Otp | K::Cert => {
                    let n = if self.pct(15) { 0 } else { self.r.idx(20) + 1 };
                    let b = self.r.bytes(n);
                    (CKA_ID, xb(&b))
                }
                K::Gen | K::EcPriv | K::EcImp | K::RsaPriv => {
                    if self.pct(30) {
                        let b = self.pct(60);
                        (CKA_SIGN, AV::B(b))
                    } else {
                        let n = if self.pct(15) { 0 } else { self.r.idx(20) + 1 };
                        let b = self.r.bytes(n);
                        (CKA_ID, xb(&b))
                    }
                }
                _ => {
                    if self.pct(30) {
                        let b = self.pct(60);
                        (CKA_VERIFY, AV::B(b))
                    } else {
                        let n = if self.pct(15) { 0 } else { self.r.idx(20) + 1 };
                        let b = self.r.bytes(n);
                        (CKA_ID, xb(&b))
                    }
                }
            };
            if !t.iter().any(|z| z.0 == a) {
                t.push((a, v));
            }
        }
        self.tempt(&mut t, k, 1);
        t
    }
    pub fn set(&mut self, s: V, o: &GO) -> Op {
        let t = self.change(o.k);
        Op::Set { s, o: o.v, t }
    }
    pub fn copy(&mut self, s: V, o: &GO) -> Op {
        let tp = self.token_pct;
        let (it, ip) = (self.pct(25), self.pct(20));
        let token = if it { o.token } else { self.pct(tp) };
        let private = if ip {
            o.private
        } else if o.private {
            !self.pct(3)
        } else {
            self.pct(20)
        };
        let (v, l) = self.new_obj(o.slot, o.k, token, private);
        let mut t = self.base(token, private, &l);
        // what the template leaves out is inherited
        t.retain(|x| !(it && x.0 == CKA_TOKEN || ip && x.0 == CKA_PRIVATE));
        if self.pct(30) && !matches!(o.k, K::Data | K::Trust) {
            let n = self.r.idx(6) + 1;
            let b = self.r.bytes(n);
            t.push((CKA_ID, xb(&b)));
        }
        self.fix(&mut t, true);
        self.tempt(&mut t, o.k, 2);
        let mut all: Tmpl = o.t.iter().filter(|x| !t.iter().any(|y| y.0 == x.0)).cloned().collect();
        all.extend(t.iter().cloned());
        self.made(v, &all);
        Op::Copy {
            s,
            from: o.v,
            o: v,
            t,
        }
    }
    pub fn get(&mut self, s: V, o: &GO) -> Op {
        let mut a = vec![CKA_LABEL];
        for c in [CKA_VALUE, CKA_ID, CKA_CLASS, CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_APPLICATION, CKA_ENCRYPT, CKA_SIGN, CKA_VERIFY, CKA_START_DATE, CKA_SUBJECT, CKA_OBJECT_ID] {
            if self.pct(45) {
                a.push(c);
            }
        }
        Op::Get { s, o: o.v, a }
    }
    pub fn find_t(&mut self, slot: u64) -> Tmpl {
        if self.rich && self.pct(75) {
            if let Some(o) = self.pick_obj(slot) {
                let mut t = Tmpl::new();
                let n = 1 + self.r.idx(3);
                for _ in 0..n {
                    if o.t.is_empty() {
                        break;
                    }
                    let (mut a, mut v) = self.r.pick(&o.t).clone();
                    if self.pct(20) {
                        // the secret itself
                        if let Some(x) = o.t.iter().find(|x| x.0 == CKA_VALUE) {
                            (a, v) = x.clone();
                        }
                    }
                    let date = [CKA_START_DATE, CKA_END_DATE].contains(&a);
                    if self.pct(10) && !date {
                        // something near it
                        v = match v {
                            AV::B(b) => AV::B(!b),
                            AV::U(u) => AV::U(u + 1),
                            AV::X(h) => {
                                let mut b = h.0.clone();
                                match self.r.below(3) {
                                    0 => {
                                        b.pop();
                                    }
                                    1 => b.push(0),
                                    _ => {
                                        if let Some(x) = b.last_mut() {
                                            *x ^= 1
                                        }
                                    }
                                }
                                AV::X(Hx(b))
                            }
                            l => l,
                        };
                    }
                    if a != CKA_VALUE_LEN && !t.iter().any(|x| x.0 == a) {
                        t.push((a, v));
                    }
                }
                return t;
            }
        }
        match self.r.below(8) {
            0 if self.kinds.contains(&K::Cert) && self.pct(50) => {
                vec![(CKA_CLASS, AV::U(*self.r.pick(&[CKO_CERTIFICATE, CKO_TRUST])))]
            }
            0 => vec![],
            1 => vec![(CKA_CLASS, AV::U(CKO_DATA))],
            2 => vec![(CKA_CLASS, AV::U(CKO_SECRET_KEY))],
            3 => vec![(CKA_TOKEN, AV::B(self.r.chance(1, 2)))],
            4 => vec![(CKA_PRIVATE, AV::B(self.r.chance(1, 2)))],
            _ => match self.pick_obj(slot) {
                Some(o) => vec![(CKA_LABEL, x(&o.label))],
                None => vec![],
            },
        }
    }
    pub fn find(&mut self, s: V, slot: u64) -> Op {
        let t = self.find_t(slot);
        // an empty template also finds what is built into the token
        let t = if t.is_empty() { vec![(CKA_PRIVATE, AV::B(true))] } else { t };
        let chunk = 1 + self.r.below(12) as u32;
        Op::Find { s, t, chunk }
    }
    pub fn objop(&mut self, s: V, slot: u64, w: &W) -> OpRec {
        let tp = self.token_pct;
        let pp = self.private_pct;
        let i = self.r.weighted(&[
            w.create, w.genkey, w.genpair, w.copy, w.set, w.destroy, w.get, w.find, w.probe, w.size, w.audit,
        ]);
        let ob = self.pick_obj(slot);
        let op = match (i, ob) {
            (1, _) => {
                let (t, p) = (self.pct(tp), self.pct(pp));
                self.genkey_k(s, slot, t, p)
            }
            (2, _) => {
                let t = self.pct(tp);
                let p = self.pct(pp.max(60));
                self.genpair_k(s, slot, t, p)
            }
            (7, _) => self.find(s, slot),
            (10, _) => self.audit(s),
            (0, _) | (_, None) => self.create(s, slot),
            (3, Some(o)) => self.copy(s, &o),
            (4, Some(o)) => self.set(s, &o),
            (5, Some(o)) => Op::Destroy { s, o: o.v },
            (6, Some(o)) => self.get(s, &o),
            (8, Some(o)) => Op::Probe { s, o: o.v },
            (_, Some(o)) => Op::Size { s, o: o.v },
        };
        self.op(op)
    }
    pub fn audit(&mut self, s: V) -> Op {
        Op::Audit { s, t: vec![] }
    }
    pub fn login(&mut self, s: V) -> OpRec {
        self.op(Op::Login {
            s,
            u: CKU_USER,
            pin: USER.into(),
        })
    }
    /// binds the object again after a restart
    pub fn locate(&mut self, s: V, o: &GO) -> OpRec {
        self.op(Op::Locate {
            s,
            o: o.v,
            t: vec![(CKA_LABEL, x(&o.label))],
        })
    }
    /// Init, open a read-write session, log in
    pub fn start(&mut self, conf: &str, slot: u64, login: bool) -> (Vec<OpRec>, V) {
        let s = self.v();
        let mut v = vec![
            self.op(Op::Init { conf: conf.into() }),
            self.op(Op::Open { slot, rw: true, s }),
        ];
        if login {
            let l = self.login(s);
            v.push(l);
        }
        (v, s)
    }
    pub fn sched(&mut self, conc: bool) -> SchedSpec {
        let seed = self.r.next();
        if !conc {
            return SchedSpec {
                seed,
                ..Default::default()
            };
        }
        SchedSpec {
            seed,
            gap_bits: *self.r.pick(&[0, 4, 6, 8, 10, 12, 14]),
            max_preempt: *self.r.pick(&[1, 2, 3, 5, 10, 30, 100]),
            yield_pct: *self.r.pick(&[0, 2, 10, 30, 60]),
            ..Default::default()
        }
    }
    pub fn io_fault(&mut self, op: u32, file: &str) -> Fault {
        let io = *self.r.pick(&[
            Io::Write,
            Io::Write,
            Io::Sync,
            Io::Sync,
            Io::Delete,
            Io::Read,
            Io::Trunc,
            Io::Open,
            Io::Lock,
            Io::Change,
            Io::Change,
            Io::Any,
        ]);
        let kind = match io {
            Io::Lock => {
                if self.pct(70) {
                    let ms = *self.r.pick(&[1u64, 50, 3000, 8000, 60000]);
                    FaultKind::Busy(ms)
                } else {
                    FaultKind::IoErr
                }
            }
            Io::Write if self.pct(40) => FaultKind::Full,
            _ => FaultKind::IoErr,
        };
        let nth = match self.r.below(3) {
            0 => 0,
            1 => self.r.below(4) as u32,
            _ => self.r.below(24) as u32,
        };
        let count = match self.r.below(6) {
            0 => 1000,
            1 => 3,
            _ => 1,
        };
        Fault {
            op,
            io,
            nth,
            kind,
            count,
            only: self.r.chance(4, 5),
            file: file.into(),
        }
    }
    pub fn crash_fault(&mut self, op: u32) -> Fault {
        let io = *self.r.pick(&[Io::Change, Io::Change, Io::Change, Io::Any]);
        let span = if io == Io::Any { 60 } else { 16 };
        let nth = self.r.below(span) as u32;
        Fault {
            op,
            io,
            nth,
            kind: if self.pct(50) { FaultKind::Kill } else { FaultKind::Power },
            count: 1,
            only: false,
            file: String::new(),
        }
    }
}
