//! One PKCS#11 call with arguments drawn from a seed: any function, any
//! handle, mechanism, number and content, but always valid memory.
use crate::p11::dual_rv;
use crate::plan::*;
use crate::rng::Rng;
use crate::sched;
use kryoptic_lib::fns::digest::*;
use kryoptic_lib::fns::encryption::*;
use kryoptic_lib::fns::general::*;
use kryoptic_lib::fns::keymgmt::*;
use kryoptic_lib::fns::objmgmt::*;
use kryoptic_lib::fns::sessmgmt::*;
use kryoptic_lib::fns::signing::*;
use kryoptic_lib::fns::stmgmt::*;
use kryoptic_lib::fns;
use kryoptic_lib::pkcs11::vendor::*;
use kryoptic_lib::pkcs11::*;
use std::ffi::c_void;
use std::ptr::null_mut;

macro_rules! lib {
    ($e:expr) => {{
        sched::yield_point(0xe001);
        sched::set_in_lib(true);
        let r = $e;
        sched::set_in_lib(false);
        r as u64
    }};
}

/// room behind every output buffer that must stay as it is
const GUARD: usize = 64;

/// what keeps the arguments of one call alive
struct A {
    r: Rng,
    b: Vec<Vec<u8>>,
    /// buffers the library may write to: place in b, declared length
    outs: Vec<(usize, usize)>,
    t: Vec<Vec<CK_ATTRIBUTE>>,
    slot: u64,
    objs: Vec<u64>,
    note: String,
}

/// mechanisms by the key they take
const K_AES: u8 = 1;
const K_RSA: u8 = 2;
const K_EC: u8 = 3;
const K_GEN: u8 = 4;
const K_OTP: u8 = 5;
const K_DH: u8 = 6;
const K_MONT: u8 = 7;

fn keyed(m: u64) -> u8 {
    match m {
        CKM_HOTP | CKM_HOTP_KEY_GEN => K_OTP,
        CKM_DH_PKCS_DERIVE | CKM_DH_PKCS_KEY_PAIR_GEN => K_DH,
        CKM_EC_MONTGOMERY_KEY_PAIR_GEN => K_MONT,
        CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE | CKM_EC_KEY_PAIR_GEN => K_EC,
        CKM_ECDSA | CKM_ECDSA_SHA1 | CKM_ECDSA_SHA224 | CKM_ECDSA_SHA256 | CKM_ECDSA_SHA384 | CKM_ECDSA_SHA512
        | CKM_ECDSA_SHA3_224 | CKM_ECDSA_SHA3_256 | CKM_ECDSA_SHA3_384 | CKM_ECDSA_SHA3_512 => K_EC,
        0x1080..=0x108f | 0x1104 | 0x1105 | 0x2104..=0x210f => K_AES,
        CKM_AES_OFB | CKM_AES_CFB8 | CKM_AES_CFB128 | CKM_AES_CFB1 => K_AES,
        0..=0x0f | 0x40..=0x47 | 0x60..=0x6f => K_RSA,
        _ => K_GEN,
    }
}

impl A {
    fn pct(&mut self, p: u64) -> bool {
        self.r.below(100) < p
    }
    fn keep(&mut self, v: Vec<u8>) -> (*mut u8, CK_ULONG) {
        let mut w = v;
        let l = w.len() as CK_ULONG;
        w.reserve(64);
        let p = w.as_mut_ptr();
        self.b.push(w);
        (p, l)
    }
    fn pod<T>(&mut self, t: T) -> (*mut u8, CK_ULONG) {
        let v = unsafe { std::slice::from_raw_parts(&t as *const T as *const u8, std::mem::size_of::<T>()).to_vec() };
        self.keep(v)
    }
    fn len(&mut self) -> usize {
        match self.r.below(20) {
            0 | 1 => 0,
            2 => 1,
            3..=7 => 16,
            8 => 15,
            9 => 17,
            10 => 32,
            11 => 64,
            12 => 128,
            13 => 8 * self.r.idx(40),
            14 => 16 * self.r.idx(40),
            15 => self.r.idx(5000),
            _ => self.r.idx(300),
        }
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = self.len();
        match self.r.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => self.der(),
            _ => self.r.bytes(n),
        }
    }
    /// something like DER, with lengths that lie
    fn der(&mut self) -> Vec<u8> {
        let n = self.r.idx(60);
        let body = self.r.bytes(n);
        let tag = *self.r.pick(&[0x30u8, 0x02, 0x03, 0x04, 0x06, 0x13, 0xa0, 0x31, 0x05, 0x01]);
        let mut v = vec![tag];
        match self.r.below(8) {
            0 => v.extend([0x80]),
            1 => v.extend([0x84, 0xff, 0xff, 0xff, 0xff]),
            2 => v.extend([0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
            3 => v.extend([0x81, n as u8]),
            4 => v.push(n as u8 + 1),
            _ => v.push(n as u8),
        }
        v.extend(body);
        v
    }
    /// (never such that a sane caller's memory would run out)
    fn num(&mut self) -> u64 {
        match self.r.below(10) {
            0..=3 => *self.r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65]),
            4 | 5 => *self.r.pick(&[96, 127, 128, 129, 192, 255, 256, 257, 384, 511, 512, 520, 521, 1024, 4095, 4096]),
            6 => *self.r.pick(&[65535, 65536, 65537, 1 << 20]),
            7 => {
                let base = *self.r.pick(&[u64::MAX, 1 << 63, 1 << 62, 1 << 61, 1 << 60, 1 << 56, 1 << 48]);
                base.wrapping_add(self.r.below(19)).wrapping_sub(9)
            }
            8 => u64::MAX / *self.r.pick(&[1, 2, 3, 4, 7, 8, 16, 64, 512]),
            _ => self.r.below(300),
        }
    }
    fn hash(&mut self) -> u64 {
        *self.r.pick(&[
            CKM_SHA_1, CKM_SHA224, CKM_SHA256, CKM_SHA256, CKM_SHA384, CKM_SHA512, CKM_SHA512_256, CKM_SHA3_256, CKM_SHA3_512,
            CKM_SHA256_HMAC, CKM_SHA512_HMAC, CKM_AES_CMAC, CKM_AES_CBC, 0, 0x8000_0001, CKM_MD5, CKM_TLS_PRF, u64::MAX,
        ])
    }
    /// input data: pointer and length
    fn data(&mut self) -> (*mut u8, CK_ULONG) {
        if self.pct(4) {
            return (null_mut(), 0);
        }
        let v = self.bytes();
        self.keep(v)
    }
    /// an output buffer and where its length is: sometimes none, sometimes no length
    fn out(&mut self) -> (*mut u8, *mut CK_ULONG) {
        let l: CK_ULONG;
        let p = match self.r.below(10) {
            0 => {
                l = self.num();
                null_mut()
            }
            n => {
                let k = match n {
                    1 => 0,
                    2 => self.len(),
                    3 => 16,
                    4 => 16 * self.r.idx(9),
                    _ => 8192,
                };
                l = k as CK_ULONG;
                self.b.push(vec![0xA5; k + GUARD]);
                self.outs.push((self.b.len() - 1, k));
                self.b.last_mut().unwrap().as_mut_ptr()
            }
        };
        (p, self.lenp(l))
    }
    fn lenp(&mut self, l: CK_ULONG) -> *mut CK_ULONG {
        if self.pct(3) {
            return null_mut();
        }
        self.b.push(l.to_ne_bytes().to_vec());
        self.b.last_mut().unwrap().as_mut_ptr() as *mut CK_ULONG
    }
    /// one buffer both ways: input length at most what is declared for output
    fn inout(&mut self) -> (*mut u8, CK_ULONG, *mut u8, *mut CK_ULONG) {
        if self.pct(80) {
            let (d, dl) = self.data();
            let (o, ol) = self.out();
            return (d, dl, o, ol);
        }
        let n = self.len();
        let k = n + if self.pct(60) { 0 } else { self.r.idx(40) };
        let mut v = self.r.bytes(k);
        v.extend([0xA5; GUARD]);
        self.b.push(v);
        self.outs.push((self.b.len() - 1, k));
        let p = self.b.last_mut().unwrap().as_mut_ptr();
        let ol = self.lenp(k as CK_ULONG);
        (p, n as CK_ULONG, p, ol)
    }
    fn obj(&mut self) -> u64 {
        match self.r.below(16) {
            0 => 0,
            1 => u64::MAX,
            2 => self.r.below(400),
            3 => self.num(),
            _ if self.objs.is_empty() => 0,
            _ => {
                let i = if self.pct(70) { 0 } else { self.r.idx(self.objs.len()) };
                self.objs[i]
            }
        }
    }
    fn handle(&mut self) -> *mut CK_OBJECT_HANDLE {
        if self.pct(2) {
            return null_mut();
        }
        self.b.push(vec![0; 8]);
        self.b.last_mut().unwrap().as_mut_ptr() as *mut CK_OBJECT_HANDLE
    }
    fn av(&mut self, ty: u64) -> Vec<u8> {
        let big = matches!(
            ty,
            CKA_MODULUS_BITS | CKA_VALUE_LEN | CKA_VALUE_BITS | CKA_PRIME_BITS | CKA_OTP_LENGTH | CKA_OTP_TIME_INTERVAL
        );
        match self.r.below(9) {
            0 => vec![],
            1 => vec![self.r.below(3) as u8],
            2 | 3 => {
                let mut n = self.num();
                if ty == CKA_MODULUS_BITS && (1032..1 << 33).contains(&n) {
                    n = 1024;
                }
                n.to_ne_bytes().to_vec()
            }
            4 if big => self.num().to_ne_bytes()[..4].to_vec(),
            4 => self.der(),
            5 => crate::wl::P256.to_vec(),
            6 => {
                let n = self.r.idx(5);
                (0..n).flat_map(|_| self.r.below(0x1100).to_ne_bytes()).collect()
            }
            7 => {
                // a number: even, tiny, negative-looking, with zeros in front
                let n = *self.r.pick(&[1usize, 2, 20, 32, 33, 64, 128, 129, 256]);
                let mut v = self.r.bytes(n);
                if self.pct(40) {
                    v[0] = 0;
                }
                if self.pct(40) {
                    v[n - 1] &= 0xfe;
                }
                v
            }
            _ => self.bytes(),
        }
    }
    fn aty(&mut self) -> u64 {
        if self.pct(6) {
            return self.num();
        }
        *self.r.pick(&[
            CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_APPLICATION, CKA_VALUE, CKA_OBJECT_ID,
            CKA_CERTIFICATE_TYPE, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_OWNER, CKA_CERTIFICATE_CATEGORY, CKA_URL,
            CKA_CHECK_VALUE, CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID, CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP,
            CKA_UNWRAP, CKA_SIGN, CKA_SIGN_RECOVER, CKA_VERIFY, CKA_DERIVE, CKA_START_DATE, CKA_END_DATE, CKA_MODULUS,
            CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1,
            CKA_EXPONENT_2, CKA_COEFFICIENT, CKA_PUBLIC_KEY_INFO, CKA_PRIME, CKA_SUBPRIME, CKA_BASE, CKA_PRIME_BITS,
            CKA_VALUE_BITS, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL, CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE,
            CKA_KEY_GEN_MECHANISM, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE, CKA_EC_PARAMS, CKA_EC_POINT,
            CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED, CKA_TRUSTED, CKA_WRAP_TEMPLATE, CKA_UNWRAP_TEMPLATE,
            CKA_DERIVE_TEMPLATE, CKA_OTP_FORMAT, CKA_OTP_LENGTH, CKA_OTP_COUNTER, CKA_OTP_TIME, CKA_ALLOWED_MECHANISMS,
            CKA_MECHANISM_TYPE, CKA_PROFILE_ID, CKA_ENCAPSULATE, CKA_DECAPSULATE, CKA_SEED, CKA_PARAMETER_SET,
            CKA_HASH_OF_CERTIFICATE, CKA_OTP_CHALLENGE_REQUIREMENT, CKA_OTP_COUNTER_REQUIREMENT,
        ])
    }
    /// attributes from t, changed in a few places
    fn tmpl(&mut self, t: &Tmpl, fresh: bool) -> (*mut CK_ATTRIBUTE, CK_ULONG) {
        let mut v: Vec<(u64, Vec<u8>)> = t.iter().map(|(a, b)| (*a, b.bytes())).collect();
        if fresh {
            v.retain(|(a, _)| {
                !matches!(
                    *a,
                    CKA_VALUE | CKA_MODULUS | CKA_PRIVATE_EXPONENT | CKA_PRIME_1 | CKA_PRIME_2 | CKA_EXPONENT_1 | CKA_EXPONENT_2 | CKA_COEFFICIENT
                )
            });
        }
        for _ in 0..self.r.logu(3) - 1 {
            match self.r.below(6) {
                0 if !v.is_empty() => {
                    let i = self.r.idx(v.len());
                    v.remove(i);
                }
                1 if !v.is_empty() => {
                    let i = self.r.idx(v.len());
                    let x = v[i].clone();
                    v.push(x);
                }
                2 if !v.is_empty() => {
                    let i = self.r.idx(v.len());
                    let n = self.r.idx(v[i].1.len() + 1);
                    v[i].1.truncate(n);
                }
                3 if !v.is_empty() => {
                    let i = self.r.idx(v.len());
                    let a = v[i].0;
                    v[i].1 = self.av(a);
                }
                _ => {
                    let a = self.aty();
                    let x = self.av(a);
                    v.push((a, x));
                }
            }
        }
        self.put(v)
    }
    fn put(&mut self, v: Vec<(u64, Vec<u8>)>) -> (*mut CK_ATTRIBUTE, CK_ULONG) {
        let mut w = vec![];
        for (a, b) in v {
            let (p, l) = self.keep(b);
            w.push(CK_ATTRIBUTE {
                type_: a,
                pValue: if l == 0 && self.r.below(2) == 0 { null_mut() } else { p as *mut c_void },
                ulValueLen: l,
            });
        }
        let n = w.len() as CK_ULONG;
        let p = if w.is_empty() && self.pct(50) { null_mut() } else { w.as_mut_ptr() };
        self.t.push(w);
        (p, n)
    }
    fn randoms(&mut self) -> CK_SSL3_RANDOM_DATA {
        let (c, cl) = if self.pct(60) { let v = self.r.bytes(32); self.keep(v) } else { self.data() };
        let (s, sl) = if self.pct(60) { let v = self.r.bytes(32); self.keep(v) } else { self.data() };
        CK_SSL3_RANDOM_DATA { pClientRandom: c, ulClientRandomLen: cl, pServerRandom: s, ulServerRandomLen: sl }
    }
    fn version(&mut self) -> *mut CK_VERSION {
        if self.pct(20) {
            return null_mut();
        }
        self.keep(vec![3, 3]).0 as *mut CK_VERSION
    }
    /// the data and the further keys of an SP800-108 derivation
    fn kdf_parts(&mut self, t: &Tmpl) -> ((*mut CK_PRF_DATA_PARAM, CK_ULONG), (*mut CK_DERIVED_KEY, CK_ULONG)) {
        let mut d = vec![];
        for _ in 0..self.r.idx(6) {
            let ty = *self.r.pick(&[
                CK_SP800_108_ITERATION_VARIABLE,
                CK_SP800_108_COUNTER,
                CK_SP800_108_DKM_LENGTH,
                CK_SP800_108_BYTE_ARRAY,
                CK_SP800_108_BYTE_ARRAY,
                77,
            ]);
            let w = *self.r.pick(&[8, 16, 24, 32, 64, 0, 7, 33, u64::MAX]);
            let (p, l) = match ty {
                CK_SP800_108_ITERATION_VARIABLE if self.pct(30) => (null_mut(), 0),
                CK_SP800_108_ITERATION_VARIABLE | CK_SP800_108_COUNTER => {
                    let e = self.r.below(3) as u8;
                    self.pod(CK_SP800_108_COUNTER_FORMAT { bLittleEndian: e, ulWidthInBits: w })
                }
                CK_SP800_108_DKM_LENGTH => {
                    let e = self.r.below(3) as u8;
                    let k = *self.r.pick(&[CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS, CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS, 0, 9]);
                    self.pod(CK_SP800_108_DKM_LENGTH_FORMAT { dkmLengthMethod: k, bLittleEndian: e, ulWidthInBits: w })
                }
                _ => self.data(),
            };
            // a wrong size that stays inside what is there
            let l = if self.pct(8) { l / 2 } else { l };
            d.push(CK_PRF_DATA_PARAM { type_: ty, pValue: p as *mut c_void, ulValueLen: l });
        }
        let dn = d.len() as CK_ULONG;
        let mut raw: Vec<u8> = vec![];
        for x in &d {
            raw.extend(unsafe { std::slice::from_raw_parts(x as *const _ as *const u8, std::mem::size_of_val(x)) });
        }
        let dp = self.keep(raw).0;
        let mut raw: Vec<u8> = vec![];
        let kn = if self.pct(60) { 0 } else { self.r.idx(4) };
        for _ in 0..kn {
            let (p, n) = self.tmpl(t, true);
            let k = CK_DERIVED_KEY { pTemplate: p, ulAttributeCount: n, phKey: self.handle() };
            raw.extend(unsafe { std::slice::from_raw_parts(&k as *const _ as *const u8, std::mem::size_of_val(&k)) });
        }
        let kp = self.keep(raw).0;
        (
            (dp as *mut CK_PRF_DATA_PARAM, dn),
            (if kn == 0 { null_mut() } else { kp as *mut CK_DERIVED_KEY }, kn as CK_ULONG),
        )
    }
    /// the parameter mechanism m wants, with any values
    fn param(&mut self, m: u64, t: &Tmpl) -> (*mut u8, CK_ULONG) {
        if self.pct(5) {
            return (null_mut(), 0);
        }
        let raw = |a: &mut A, n: usize| {
            let v = a.r.bytes(n);
            a.keep(v)
        };
        let (p, l) = match m {
            CKM_AES_CBC | CKM_AES_CBC_PAD | CKM_AES_OFB | CKM_AES_CFB8 | CKM_AES_CFB128 | CKM_AES_CFB1 | CKM_AES_CTS => {
                let n = if self.pct(75) { 16 } else { self.len() };
                return raw(self, n);
            }
            CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP if self.pct(50) => {
                let n = *self.r.pick(&[8, 8, 4, 16, 0, 7]);
                return raw(self, n);
            }
            CKM_AES_CTR => {
                let mut cb = [0u8; 16];
                self.r.fill(&mut cb);
                if self.pct(40) {
                    cb.fill(0xff);
                }
                let n = if self.pct(50) { *self.r.pick(&[1, 8, 32, 64, 120, 128]) } else { self.num() };
                self.pod(CK_AES_CTR_PARAMS { ulCounterBits: n, cb })
            }
            CKM_AES_GCM => {
                let (i, il) = if self.pct(70) { raw(self, 12) } else { self.data() };
                let (a, al) = self.data();
                let tag = if self.pct(60) { *self.r.pick(&[96, 104, 112, 120, 128]) } else { self.num() };
                let bits = if self.pct(70) { il * 8 } else { self.num() };
                self.pod(CK_GCM_PARAMS { pIv: i, ulIvLen: il, ulIvBits: bits, pAAD: a, ulAADLen: al, ulTagBits: tag })
            }
            CKM_AES_CCM => {
                let n = *self.r.pick(&[7usize, 8, 12, 13, 13, 6, 14, 0]);
                let (i, il) = raw(self, n);
                let (a, al) = self.data();
                let len = if self.pct(60) { *self.r.pick(&[0, 16, 16, 32, 64, 128]) } else { self.num() };
                let mac = if self.pct(60) { *self.r.pick(&[4, 8, 16]) } else { self.num() };
                self.pod(CK_CCM_PARAMS { ulDataLen: len, pNonce: i, ulNonceLen: il, pAAD: a, ulAADLen: al, ulMACLen: mac })
            }
            CKM_RSA_PKCS_OAEP => {
                let (s, sl) = if self.pct(50) { (null_mut(), 0) } else { self.data() };
                let (h, g) = (self.hash(), *self.r.pick(&[CKG_MGF1_SHA1, CKG_MGF1_SHA256, CKG_MGF1_SHA512, CKG_MGF1_SHA3_256, 0, 99]));
                let src = *self.r.pick(&[CKZ_DATA_SPECIFIED, CKZ_DATA_SPECIFIED, 0, 7]);
                self.pod(CK_RSA_PKCS_OAEP_PARAMS { hashAlg: h, mgf: g, source: src, pSourceData: s as *mut c_void, ulSourceDataLen: sl })
            }
            _ if keyed(m) == K_RSA && m != CKM_RSA_PKCS && m != CKM_RSA_X_509 && self.pct(80) => {
                let (h, g) = (self.hash(), *self.r.pick(&[CKG_MGF1_SHA1, CKG_MGF1_SHA256, CKG_MGF1_SHA384, CKG_MGF1_SHA512, 0, 99]));
                let s = self.num();
                self.pod(CK_RSA_PKCS_PSS_PARAMS { hashAlg: h, mgf: g, sLen: s })
            }
            CKM_HKDF_DERIVE | CKM_HKDF_DATA => {
                let (s, sl) = self.data();
                let (i, il) = self.data();
                let (x, e) = (self.r.below(3) as u8, self.r.below(3) as u8);
                let ty = *self.r.pick(&[CKF_HKDF_SALT_NULL, CKF_HKDF_SALT_DATA, CKF_HKDF_SALT_KEY, 0, 9]);
                let (h, k) = (self.hash(), self.obj());
                self.pod(CK_HKDF_PARAMS {
                    bExtract: x,
                    bExpand: e,
                    prfHashMechanism: h,
                    ulSaltType: ty,
                    pSalt: s,
                    ulSaltLen: sl,
                    hSaltKey: k,
                    pInfo: i,
                    ulInfoLen: il,
                })
            }
            CKM_ECDH1_DERIVE | CKM_ECDH1_COFACTOR_DERIVE => {
                let (s, sl) = if self.pct(40) { (null_mut(), 0) } else { self.data() };
                let n = *self.r.pick(&[32usize, 33, 65, 67, 56, 0, 1]);
                let mut v = self.r.bytes(n);
                if n == 65 {
                    v[0] = 4;
                    if self.pct(60) {
                        // the base point of P-256
                        v = unhex("046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5").unwrap();
                    }
                }
                if n == 67 {
                    v[..3].copy_from_slice(&[4, 65, 4]);
                }
                let (p, l) = self.keep(v);
                let kdf = if self.pct(50) { CKD_NULL } else { *self.r.pick(&[CKD_SHA1_KDF, CKD_SHA256_KDF, CKD_SHA512_KDF, CKD_SHA3_256_KDF, 0, 99]) };
                self.pod(CK_ECDH1_DERIVE_PARAMS { kdf, ulSharedDataLen: sl, pSharedData: s, ulPublicDataLen: l, pPublicData: p })
            }
            CKM_DH_PKCS_DERIVE => {
                let n = if self.pct(60) { 256 } else { self.len() };
                let mut v = self.r.bytes(n);
                if self.pct(70) && n > 0 {
                    v[0] &= 0x7f;
                }
                return self.keep(v);
            }
            CKM_CONCATENATE_BASE_AND_DATA | CKM_CONCATENATE_DATA_AND_BASE | CKM_XOR_BASE_AND_DATA | CKM_AES_ECB_ENCRYPT_DATA => {
                let (p, l) = self.data();
                self.pod(CK_KEY_DERIVATION_STRING_DATA { pData: p, ulLen: l })
            }
            CKM_CONCATENATE_BASE_AND_KEY => {
                let o = self.obj();
                self.pod(o)
            }
            CKM_AES_CBC_ENCRYPT_DATA => {
                let (p, l) = self.data();
                let mut iv = [0u8; 16];
                self.r.fill(&mut iv);
                self.pod(CK_AES_CBC_ENCRYPT_DATA_PARAMS { iv, pData: p, length: l })
            }
            CKM_PKCS5_PBKD2 => {
                let (s, sl) = self.data();
                let (w, wl) = self.data();
                let (q, ql) = if self.pct(60) { (null_mut(), 0) } else { self.data() };
                let it = if self.pct(10) { 0 } else { 1 + self.r.below(9) };
                let prf = if self.pct(70) { CKP_PKCS5_PBKD2_HMAC_SHA256 } else { self.r.below(12) };
                let src = *self.r.pick(&[CKZ_SALT_SPECIFIED, CKZ_SALT_SPECIFIED, CKZ_SALT_SPECIFIED, 0, 5]);
                self.pod(CK_PKCS5_PBKD2_PARAMS2 {
                    saltSource: src,
                    pSaltSourceData: s as *mut c_void,
                    ulSaltSourceDataLen: sl,
                    iterations: it,
                    prf,
                    pPrfData: q as *mut c_void,
                    ulPrfDataLen: ql,
                    pPassword: w,
                    ulPasswordLen: wl,
                })
            }
            CKM_SP800_108_COUNTER_KDF => {
                let ((dp, dn), (kp, kn)) = self.kdf_parts(t);
                let prf = self.hash();
                self.pod(CK_SP800_108_KDF_PARAMS {
                    prfType: prf,
                    ulNumberOfDataParams: dn,
                    pDataParams: dp,
                    ulAdditionalDerivedKeys: kn,
                    pAdditionalDerivedKeys: kp,
                })
            }
            CKM_SP800_108_FEEDBACK_KDF => {
                let ((dp, dn), (kp, kn)) = self.kdf_parts(t);
                let (i, il) = self.data();
                let prf = self.hash();
                self.pod(CK_SP800_108_FEEDBACK_KDF_PARAMS {
                    prfType: prf,
                    ulNumberOfDataParams: dn,
                    pDataParams: dp,
                    ulIVLen: il,
                    pIV: i,
                    ulAdditionalDerivedKeys: kn,
                    pAdditionalDerivedKeys: kp,
                })
            }
            CKM_TLS12_MASTER_KEY_DERIVE | CKM_TLS12_MASTER_KEY_DERIVE_DH => {
                let (r, v, h) = (self.randoms(), self.version(), self.hash());
                self.pod(CK_TLS12_MASTER_KEY_DERIVE_PARAMS { RandomInfo: r, pVersion: v, prfHashMechanism: h })
            }
            CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE | CKM_TLS12_EXTENDED_MASTER_KEY_DERIVE_DH => {
                let (p, l) = self.data();
                let (v, h) = (self.version(), self.hash());
                self.pod(CK_TLS12_EXTENDED_MASTER_KEY_DERIVE_PARAMS { prfHashMechanism: h, pSessionHash: p, ulSessionHashLen: l, pVersion: v })
            }
            CKM_TLS12_KEY_AND_MAC_DERIVE | CKM_TLS12_KEY_SAFE_DERIVE => {
                // there is room for 512 bytes of IV
                let ivbits = *self.r.pick(&[0u64, 8, 32, 64, 96, 128, 1024, 4096, 7, 9]);
                let x = vec![0; 1024];
                let y = vec![0; 1024];
                let (mut ci, mut si) = (self.keep(x).0, self.keep(y).0);
                match self.r.below(12) {
                    0 => ci = null_mut(),
                    1 => si = null_mut(),
                    _ => {}
                }
                let km = self.pod(CK_SSL3_KEY_MAT_OUT {
                    hClientMacSecret: 0,
                    hServerMacSecret: 0,
                    hClientKey: 0,
                    hServerKey: 0,
                    pIVClient: ci,
                    pIVServer: si,
                });
                let (mac, key) = (self.num(), self.num());
                let (r, h) = (self.randoms(), self.hash());
                let ex = self.pct(10) as u8;
                self.pod(CK_TLS12_KEY_MAT_PARAMS {
                    ulMacSizeInBits: mac,
                    ulKeySizeInBits: key,
                    ulIVSizeInBits: ivbits,
                    bIsExport: ex,
                    RandomInfo: r,
                    pReturnedKeyMaterial: km.0 as *mut CK_SSL3_KEY_MAT_OUT,
                    prfHashMechanism: h,
                })
            }
            CKM_TLS12_KDF | CKM_TLS_KDF => {
                let (p, l) = self.data();
                let (c, cl) = self.data();
                let (r, h) = (self.randoms(), self.hash());
                self.pod(CK_TLS_KDF_PARAMS { prfMechanism: h, pLabel: p, ulLabelLength: l, RandomInfo: r, pContextData: c, ulContextDataLength: cl })
            }
            CKM_TLS12_MAC | CKM_TLS_MAC => {
                let (h, n, w) = (self.hash(), self.num(), self.r.below(4));
                self.pod(CK_TLS_MAC_PARAMS { prfHashMechanism: h, ulMacLength: n, ulServerOrClient: w })
            }
            KRM_SSHKDF_DERIVE => {
                let (x, xl) = self.data();
                let (s, sl) = self.data();
                let h = self.hash();
                let k = *self.r.pick(b"ABCDEFGA@\x00\xff");
                self.pod(KR_SSHKDF_PARAMS { prfHashMechanism: h, derivedKeyType: k, pExchangeHash: x, ulExchangeHashLen: xl, pSessionId: s, ulSessionIdLen: sl })
            }
            CKM_HOTP if self.pct(50) => return (null_mut(), 0),
            CKM_EXTRACT_KEY_FROM_KEY | CKM_AES_MAC_GENERAL | CKM_AES_CMAC_GENERAL | CKM_SHA_1_HMAC_GENERAL
            | CKM_SHA224_HMAC_GENERAL | CKM_SHA256_HMAC_GENERAL | CKM_SHA384_HMAC_GENERAL | CKM_SHA512_HMAC_GENERAL
            | CKM_SHA3_224_HMAC_GENERAL | CKM_SHA3_256_HMAC_GENERAL | CKM_SHA3_384_HMAC_GENERAL
            | CKM_SHA3_512_HMAC_GENERAL | CKM_SHA512_224_HMAC_GENERAL | CKM_SHA512_256_HMAC_GENERAL => {
                let n = self.num();
                self.pod(n)
            }
            // nothing that could be taken for a pointer
            _ if self.pct(70) => return (null_mut(), 0),
            _ => {
                let n = if self.pct(60) { 8 } else { self.len() };
                return self.keep(vec![0; n]);
            }
        };
        // a size that does not fit: the whole structure is there anyway
        let l = if self.pct(4) { self.r.below(l + 9) } else { l };
        (p, l)
    }
    fn flags_of(&mut self, m: u64) -> u64 {
        let mut i: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() };
        if lib!(fn_get_mechanism_info(self.slot, m, &mut i)) == CKR_OK as u64 { i.flags } else { 0 }
    }
    /// a mechanism, mostly one that fits the function and the key
    fn mech(&mut self, s: u64, want: u64, key: u64, t: &Tmpl) -> *mut CK_MECHANISM {
        if self.pct(2) {
            return null_mut();
        }
        let mut v = vec![0 as CK_MECHANISM_TYPE; 512];
        let mut n: CK_ULONG = 512;
        let x = lib!(fn_get_mechanism_list(self.slot, v.as_mut_ptr(), &mut n));
        v.truncate(if x == CKR_OK as u64 { (n as usize).min(512) } else { 0 });
        v.sort();
        let fits = self.pct(85);
        let mut ty = 0;
        if fits && key != 0 {
            let mut kt: CK_ULONG = u64::MAX;
            let mut a = CK_ATTRIBUTE { type_: CKA_KEY_TYPE, pValue: &mut kt as *mut _ as *mut c_void, ulValueLen: 8 };
            lib!(fn_get_attribute_value(s, key, &mut a, 1));
            ty = match kt {
                CKK_AES => K_AES,
                CKK_RSA => K_RSA,
                CKK_EC => K_EC,
                CKK_EC_MONTGOMERY => K_EC,
                CKK_DH => K_DH,
                CKK_HOTP => K_OTP,
                CKK_GENERIC_SECRET | CKK_HKDF => K_GEN,
                _ => 0,
            };
        }
        let m = if v.is_empty() || self.pct(3) {
            self.num()
        } else {
            let mut m = *self.r.pick(&v);
            if fits {
                // derivations by name take any secret key
                let any = want == CKF_DERIVE && (ty == K_AES || ty == K_GEN);
                for _ in 0..60 {
                    if (ty == 0 || keyed(m) == ty || any && keyed(m) == K_GEN) && self.flags_of(m) & want != 0 {
                        break;
                    }
                    m = *self.r.pick(&v);
                }
            }
            m
        };
        let (p, l) = self.param(m, t);
        self.note.push_str(&format!(" mech {m:x} par {l}"));
        let mm = CK_MECHANISM { mechanism: m, pParameter: p as *mut c_void, ulParameterLen: l };
        self.pod(mm).0 as *mut CK_MECHANISM
    }
    /// parameter of one message
    fn msgpar(&mut self) -> (*mut c_void, CK_ULONG) {
        let n = if self.pct(70) { *self.r.pick(&[12usize, 13]) } else { self.len().min(200) };
        let iv = self.r.bytes(n);
        let (i, il) = self.keep(iv);
        let fixed = if self.pct(50) { 0 } else { self.num() };
        let gen_ = *self.r.pick(&[CKG_NO_GENERATE, CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_RANDOM, CKG_GENERATE_COUNTER_XOR, 9]);
        // the tag has 64 bytes of room; announced lengths beyond that are no
        // valid memory
        self.b.push(vec![0xA5; 64 + GUARD]);
        self.outs.push((self.b.len() - 1, 64));
        let t = self.b.last_mut().unwrap().as_mut_ptr();
        let tl = if self.pct(60) { *self.r.pick(&[16u64, 12, 8, 4]) } else { self.r.below(65) };
        let (p, l) = if self.pct(55) {
            let bits = if self.pct(85) { tl * 8 } else { self.r.below(513) };
            self.pod(CK_GCM_MESSAGE_PARAMS { pIv: i, ulIvLen: il, ulIvFixedBits: fixed, ivGenerator: gen_, pTag: t, ulTagBits: bits })
        } else {
            let dl = if self.pct(70) { *self.r.pick(&[0, 16, 32, 64, 128]) } else { self.num() };
            self.pod(CK_CCM_MESSAGE_PARAMS { ulDataLen: dl, pNonce: i, ulNonceLen: il, ulNonceFixedBits: fixed, nonceGenerator: gen_, pMAC: t, ulMACLen: tl })
        };
        let l = if self.pct(3) { self.r.below(l + 9) } else { l };
        (p as *mut c_void, l)
    }
    fn pin(&mut self) -> (*mut u8, CK_ULONG) {
        if self.pct(5) {
            return (null_mut(), 0);
        }
        let v = match self.r.below(6) {
            0 | 1 => crate::wl::USER.as_bytes().to_vec(),
            2 => crate::wl::SO.as_bytes().to_vec(),
            _ => {
                let n = self.len().min(400);
                self.r.bytes(n)
            }
        };
        self.keep(v)
    }
}

/// what a call is about; picked when the plan is made
pub const GROUPS: &[(&str, &[u32])] = &[
    ("info", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
    ("session", &[20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]),
    ("pin", &[40, 41, 42]),
    ("object", &[50, 51, 52, 53, 54, 55, 56, 57, 58]),
    ("keys", &[60, 61, 62, 63, 64, 65, 66, 67, 68]),
    ("keys", &[60, 61, 62, 63, 64, 64, 64]),
    ("random", &[70, 71]),
    ("encrypt", &[80, 81, 82, 83]),
    ("decrypt", &[84, 85, 86, 87]),
    ("digest", &[90, 91, 92, 93, 94]),
    ("sign", &[100, 101, 102, 103]),
    ("verify", &[110, 111, 112, 113]),
    ("verify_signature", &[114, 115, 116, 117]),
    ("message", &[120, 121, 122, 123, 124, 125, 126, 127, 128, 129]),
    ("dual", &[130, 131, 132, 133]),
    ("other", &[140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150]),
];

/// result, object handles made
pub fn wild(s: u64, objs: &[u64], t: &Tmpl, k: u32, slot: u64, seed: u64) -> Res {
    let mut a = A {
        r: Rng::new(seed),
        b: vec![],
        outs: vec![],
        t: vec![],
        slot,
        objs: objs.to_vec(),
        note: String::new(),
    };
    let a = &mut a;
    // mostly the session that was meant
    let s = if a.pct(4) { a.num() } else { s };
    let mut made: Vec<*mut CK_OBJECT_HANDLE> = vec![];
    let mut res = Res::default();
    let say = |a: &A| {
        crate::child::log(&Ev::Note { s: format!("wild {k} session {s}{}", a.note) });
    };
    let z = |a: &mut A, n: usize| {
        a.b.push(vec![0xA5; n + GUARD]);
        a.outs.push((a.b.len() - 1, n));
        a.b.last_mut().unwrap().as_mut_ptr()
    };
    let x = match k {
        0 => {
            let p = z(a, std::mem::size_of::<CK_INFO>());
            lib!(fn_get_info(p as *mut CK_INFO))
        }
        1 | 2 => {
            let n = if a.pct(50) { 64 } else { a.r.idx(4) };
            let null = a.pct(30);
            let p = z(a, n * 8);
            let l = a.lenp(n as CK_ULONG);
            let pres = a.r.below(3) as u8;
            lib!(fn_get_slot_list(pres, if null { null_mut() } else { p as *mut CK_SLOT_ID }, l))
        }
        3 | 4 => {
            let slot = if a.pct(70) { slot } else { a.num() };
            if k == 3 {
                let p = z(a, std::mem::size_of::<CK_SLOT_INFO>());
                lib!(fn_get_slot_info(slot, p as *mut CK_SLOT_INFO))
            } else {
                let p = z(a, std::mem::size_of::<CK_TOKEN_INFO>());
                lib!(fn_get_token_info(slot, p as *mut CK_TOKEN_INFO))
            }
        }
        5 | 6 => {
            let slot = if a.pct(80) { slot } else { a.num() };
            let n = if a.pct(50) { 512 } else { a.r.idx(200) };
            let null = a.pct(30);
            let p = z(a, n * 8);
            let l = a.lenp(n as CK_ULONG);
            lib!(fn_get_mechanism_list(slot, if null { null_mut() } else { p as *mut CK_MECHANISM_TYPE }, l))
        }
        7 => {
            let slot = if a.pct(80) { slot } else { a.num() };
            let m = a.num();
            let p = z(a, std::mem::size_of::<CK_MECHANISM_INFO>());
            lib!(fn_get_mechanism_info(slot, m, p as *mut CK_MECHANISM_INFO))
        }
        8 => {
            let n = a.r.idx(6);
            let null = a.pct(30);
            let p = z(a, n * std::mem::size_of::<CK_INTERFACE>());
            let l = a.lenp(n as CK_ULONG);
            lib!(fn_get_interface_list(if null { null_mut() } else { p as *mut CK_INTERFACE }, l))
        }
        9 => {
            let name: Vec<u8> = match a.r.below(5) {
                0 => b"PKCS 11\0".to_vec(),
                1 => b"\0".to_vec(),
                2 => b"Vendor NSS\0".to_vec(),
                3 => b"\xff\xfe\x80\0".to_vec(),
                _ => b"PKCS 11 with a long tail\0".to_vec(),
            };
            let np = if a.pct(25) { null_mut() } else { a.keep(name).0 };
            let mut ver = CK_VERSION { major: *a.r.pick(&[2, 3, 0, 255]), minor: *a.r.pick(&[0, 1, 2, 40, 255]) };
            let vp = if a.pct(40) { null_mut() } else { &mut ver as *mut CK_VERSION };
            let fl = if a.pct(70) { 0 } else { a.num() };
            let op = z(a, 8);
            lib!(fn_get_interface(np, vp, op as *mut *mut CK_INTERFACE, fl))
        }
        10 => {
            let p = z(a, 8);
            lib!(fn_get_function_list(if a.pct(10) { null_mut() } else { p as *mut *mut CK_FUNCTION_LIST }))
        }
        // sessions; those that are opened are closed again, for the judge of
        // later calls to have room
        20 => {
            let slot = if a.pct(80) { slot } else { a.num() };
            let fl = if a.pct(60) { CKF_SERIAL_SESSION | CKF_RW_SESSION } else { a.num() };
            let p = z(a, 8);
            let h = if a.pct(3) { null_mut() } else { p as *mut CK_SESSION_HANDLE };
            let x = lib!(fn_open_session(slot, fl, null_mut(), None, h));
            if x == CKR_OK as u64 && !h.is_null() {
                lib!(fn_close_session(unsafe { *h }));
            }
            x
        }
        21 => {
            let n = a.num();
            lib!(fn_close_session(if n < 100 { u64::MAX } else { n }))
        }
        22 => {
            let p = z(a, std::mem::size_of::<CK_SESSION_INFO>());
            lib!(fn_get_session_info(s, p as *mut CK_SESSION_INFO))
        }
        23 => {
            let (p, l) = a.out();
            say(a);
            let x = lib!(fn_get_operation_state(s, p, l));
            if x == CKR_OK as u64 && !p.is_null() && !l.is_null() && a.pct(80) {
                // handed back, as it is or damaged
                let n = (unsafe { *l } as usize).min(8192);
                let mut v = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
                match a.r.below(4) {
                    0 if n > 0 => {
                        let i = a.r.idx(n);
                        v[i] ^= 1 << a.r.idx(8);
                    }
                    1 => {
                        let c = a.r.idx(n + 1);
                        v.truncate(c);
                    }
                    2 => {
                        let e = a.bytes();
                        v.extend(e);
                    }
                    _ => {}
                }
                let (q, ql) = a.keep(v);
                let (e, m) = if a.pct(60) { (0, 0) } else { (a.obj(), a.obj()) };
                res.n.push(lib!(fn_set_operation_state(s, q, ql, e, m)));
            }
            x
        }
        24 => {
            let (p, l) = if a.pct(60) {
                a.data()
            } else {
                // the right form, but no state that was ever saved
                let n = a.r.idx(100);
                let mut v = unhex("060960864801650304012e3018040c").unwrap();
                v.extend(a.r.bytes(12));
                v.extend([4, 8]);
                v.extend(a.r.bytes(8));
                let mut w = vec![0x30, v.len() as u8];
                w.extend(v);
                w.extend([4, n as u8]);
                w.extend(a.r.bytes(n));
                let mut y = vec![0x30];
                if w.len() > 127 {
                    y.push(0x81);
                }
                y.push(w.len() as u8);
                y.extend(w);
                a.keep(y)
            };
            let (e, m) = if a.pct(50) { (0, 0) } else { (a.obj(), a.obj()) };
            say(a);
            lib!(fn_set_operation_state(s, p, l, e, m))
        }
        25 | 26 => {
            let (p, l) = a.pin();
            let u = if a.pct(80) { a.r.below(3) } else { a.num() };
            say(a);
            if k == 25 {
                lib!(fn_login(s, u, p, l))
            } else {
                let (n, nl) = a.data();
                lib!(fn_login_user(s, u, p, l, n, nl))
            }
        }
        27 => lib!(fn_logout(s)),
        28 => {
            let f = if a.pct(40) { 1u64 << a.r.below(64) } else { a.num() };
            lib!(fn_session_cancel(s, f))
        }
        29 => {
            let p = z(a, 8);
            let f = a.num();
            lib!(fn_get_session_validation_flags(s, f, if a.pct(10) { null_mut() } else { p as *mut CK_FLAGS }))
        }
        30 => {
            let n = a.num();
            lib!(fn_close_all_sessions(if n < 100 { u64::MAX } else { n }))
        }
        31 => lib!(fn_get_session_info(s, null_mut())),
        40 => {
            let (p, l) = a.pin();
            let lab = a.r.bytes(32);
            let (lp, _) = a.keep(lab);
            let lp = if a.pct(10) { null_mut() } else { lp };
            let slot = if a.pct(80) { slot } else { a.num() };
            say(a);
            lib!(fn_init_token(slot, p, l, lp))
        }
        41 => {
            let (p, l) = a.pin();
            say(a);
            lib!(fn_init_pin(s, p, l))
        }
        42 => {
            let (p, l) = a.pin();
            let (q, ql) = a.pin();
            say(a);
            lib!(fn_set_pin(s, p, l, q, ql))
        }
        50 => {
            let (p, n) = a.tmpl(t, false);
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_create_object(s, p, n, h))
        }
        51 => {
            let o = a.obj();
            let (p, n) = if a.pct(40) { a.put(vec![]) } else { a.tmpl(&vec![], false) };
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_copy_object(s, o, p, n, h))
        }
        52 => {
            let o = if a.pct(70) { a.num() } else { a.obj() };
            lib!(fn_destroy_object(s, o))
        }
        53 => {
            let o = a.obj();
            let l = a.lenp(0);
            lib!(fn_get_object_size(s, o, l))
        }
        54 => {
            let o = a.obj();
            let n = a.r.idx(8);
            let mut w = vec![];
            for _ in 0..n {
                let ty = a.aty();
                let room = match a.r.below(4) {
                    0 => 0,
                    1 => 8,
                    2 => a.len(),
                    _ => 2048,
                };
                let (p, l) = if a.pct(20) {
                    (null_mut(), a.num())
                } else {
                    (z(a, room), room as u64)
                };
                w.push(CK_ATTRIBUTE { type_: ty, pValue: p as *mut c_void, ulValueLen: l });
            }
            let p = if n == 0 { null_mut() } else { w.as_mut_ptr() };
            lib!(fn_get_attribute_value(s, o, p, n as CK_ULONG))
        }
        55 => {
            let o = a.obj();
            let (p, n) = if a.pct(60) { a.tmpl(&vec![], false) } else { { let f = a.pct(50); a.tmpl(t, f) } };
            say(a);
            lib!(fn_set_attribute_value(s, o, p, n))
        }
        56 => {
            let cut = a.r.idx(4);
            let few: Tmpl = t.iter().take(cut).cloned().collect();
            let (p, n) = a.tmpl(&few, false);
            say(a);
            lib!(fn_find_objects_init(s, p, n))
        }
        57 => {
            let n = if a.pct(80) { a.r.idx(40) } else { 0 };
            let p = z(a, n * 8);
            let l = a.lenp(0);
            lib!(fn_find_objects(s, if n == 0 { null_mut() } else { p as *mut CK_OBJECT_HANDLE }, n as CK_ULONG, l))
        }
        58 => lib!(fn_find_objects_final(s)),
        60 => {
            let m = a.mech(s, CKF_GENERATE, 0, t);
            let (p, n) = a.tmpl(t, true);
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_generate_key(s, m, p, n, h))
        }
        61 => {
            let m = a.mech(s, CKF_GENERATE_KEY_PAIR, 0, t);
            let mech = if m.is_null() { 0 } else { unsafe { std::ptr::read_unaligned(m) }.mechanism };
            let mut p1: Tmpl = vec![(CKA_VERIFY, AV::B(true)), (CKA_LABEL, x("w"))];
            match mech {
                CKM_RSA_PKCS_KEY_PAIR_GEN => {
                    p1.push((CKA_MODULUS_BITS, AV::U(1024)));
                    p1.push((CKA_PUBLIC_EXPONENT, xb(&[1, 0, 1])));
                }
                CKM_EC_KEY_PAIR_GEN => p1.push((CKA_EC_PARAMS, xb(crate::wl::P256))),
                // curve25519 by name
                CKM_EC_MONTGOMERY_KEY_PAIR_GEN => p1.push((CKA_EC_PARAMS, xb(b"\x13\x0acurve25519"))),
                CKM_DH_PKCS_KEY_PAIR_GEN => {
                    let n = a.r.bytes(256);
                    p1.push((CKA_PRIME, xb(&n)));
                    p1.push((CKA_BASE, xb(&[2])));
                }
                _ => {}
            }
            let (p, n) = a.tmpl(&p1, false);
            let p2: Tmpl = vec![(CKA_SIGN, AV::B(true)), (CKA_DERIVE, AV::B(mech != CKM_RSA_PKCS_KEY_PAIR_GEN))];
            let (q, qn) = a.tmpl(&p2, false);
            let (h, h2) = (a.handle(), a.handle());
            made.push(h);
            made.push(h2);
            say(a);
            lib!(fn_generate_key_pair(s, m, p, n, q, qn, h, h2))
        }
        62 => {
            let (w, o) = (a.obj(), a.obj());
            let m = a.mech(s, CKF_WRAP, w, t);
            let (p, l) = a.out();
            say(a);
            let x = lib!(fn_wrap_key(s, m, w, o, p, l));
            if x == CKR_OK as u64 && !p.is_null() && a.pct(70) {
                // and back, perhaps damaged, as any kind of key
                let n = (unsafe { *l } as usize).min(8192);
                let mut v = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
                if a.pct(30) && n > 0 {
                    let i = a.r.idx(n);
                    v[i] ^= 1 << a.r.idx(8);
                }
                let (q, ql) = a.keep(v);
                let (tp, tn) = a.tmpl(t, true);
                let h = a.handle();
                made.push(h);
                res.n.push(lib!(fn_unwrap_key(s, m, w, q, ql, tp, tn, h)));
            }
            x
        }
        63 => {
            let w = a.obj();
            let m = a.mech(s, CKF_UNWRAP, w, t);
            let (p, l) = a.data();
            let (tp, tn) = a.tmpl(t, true);
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_unwrap_key(s, m, w, p, l, tp, tn, h))
        }
        64 => {
            let w = a.obj();
            let m = a.mech(s, CKF_DERIVE, w, t);
            let (tp, tn) = a.tmpl(t, true);
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_derive_key(s, m, w, tp, tn, h))
        }
        65 => {
            let w = a.obj();
            let m = a.mech(s, CKF_ENCAPSULATE, w, t);
            let (tp, tn) = a.tmpl(t, true);
            let (p, l) = a.out();
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_encapsulate_key(s, m, w, tp, tn, p, l, h))
        }
        66 => {
            let w = a.obj();
            let m = a.mech(s, CKF_DECAPSULATE, w, t);
            let (tp, tn) = a.tmpl(t, true);
            let (p, l) = a.data();
            let h = a.handle();
            made.push(h);
            say(a);
            lib!(fn_decapsulate_key(s, m, w, tp, tn, p, l, h))
        }
        67 => {
            let (w, o) = (a.obj(), a.obj());
            let m = a.mech(s, CKF_WRAP, w, t);
            let (d, dl) = a.data();
            let (p, l) = a.out();
            lib!(fn_wrap_key_authenticated(s, m, w, o, d, dl, p, l))
        }
        68 => {
            let w = a.obj();
            let m = a.mech(s, CKF_UNWRAP, w, t);
            let (d, dl) = a.data();
            let (p, l) = a.data();
            let (tp, tn) = a.tmpl(t, true);
            let h = a.handle();
            lib!(fn_unwrap_key_authenticated(s, m, w, p, l, tp, tn, d, dl, h))
        }
        70 => {
            let n = a.len();
            let p = z(a, n);
            lib!(fns::fn_generate_random(s, p, n as CK_ULONG))
        }
        71 => {
            let (p, l) = a.data();
            lib!(fns::fn_seed_random(s, p, l))
        }
        80 | 84 | 100 | 110 | 114 | 120 | 125 => {
            let o = a.obj();
            let want = match k {
                80 => CKF_ENCRYPT,
                84 => CKF_DECRYPT,
                100 => CKF_SIGN,
                110 | 114 => CKF_VERIFY,
                120 => CKF_MESSAGE_ENCRYPT,
                _ => CKF_MESSAGE_DECRYPT,
            };
            let m = a.mech(s, want, o, t);
            say(a);
            match k {
                80 => lib!(fn_encrypt_init(s, m, o)),
                84 => lib!(fn_decrypt_init(s, m, o)),
                100 => lib!(fn_sign_init(s, m, o)),
                110 => lib!(fn_verify_init(s, m, o)),
                120 => lib!(fn_message_encrypt_init(s, m, o)),
                125 => lib!(fn_message_decrypt_init(s, m, o)),
                _ => {
                    let (p, l) = a.data();
                    lib!(fn_verify_signature_init(s, m, o, p, l))
                }
            }
        }
        81 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_encrypt(s, d, dl, p, l))
        }
        82 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_encrypt_update(s, d, dl, p, l))
        }
        83 => {
            let (p, l) = a.out();
            lib!(fn_encrypt_final(s, p, l))
        }
        85 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_decrypt(s, d, dl, p, l))
        }
        86 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_decrypt_update(s, d, dl, p, l))
        }
        87 => {
            let (p, l) = a.out();
            lib!(fn_decrypt_final(s, p, l))
        }
        90 => {
            let m = a.mech(s, CKF_DIGEST, 0, t);
            say(a);
            lib!(fn_digest_init(s, m))
        }
        91 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_digest(s, d, dl, p, l))
        }
        92 => {
            let (d, dl) = a.data();
            lib!(fn_digest_update(s, d, dl))
        }
        93 => {
            let o = a.obj();
            lib!(fn_digest_key(s, o))
        }
        94 => {
            let (p, l) = a.out();
            lib!(fn_digest_final(s, p, l))
        }
        101 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_sign(s, d, dl, p, l))
        }
        102 => {
            let (d, dl) = a.data();
            lib!(fn_sign_update(s, d, dl))
        }
        103 => {
            let (p, l) = a.out();
            lib!(fn_sign_final(s, p, l))
        }
        111 => {
            let (d, dl) = a.data();
            let (p, l) = a.data();
            lib!(fn_verify(s, d, dl, p, l))
        }
        112 => {
            let (d, dl) = a.data();
            lib!(fn_verify_update(s, d, dl))
        }
        113 => {
            let (p, l) = a.data();
            lib!(fn_verify_final(s, p, l))
        }
        115 => {
            let (d, dl) = a.data();
            lib!(fn_verify_signature(s, d, dl))
        }
        116 => {
            let (d, dl) = a.data();
            lib!(fn_verify_signature_update(s, d, dl))
        }
        117 => lib!(fn_verify_signature_final(s)),
        121 | 126 => {
            let (pp, pl) = a.msgpar();
            let (ad, al) = a.data();
            let (d, dl, p, l) = a.inout();
            if k == 121 {
                lib!(fn_encrypt_message(s, pp, pl, ad, al, d, dl, p, l))
            } else {
                lib!(fn_decrypt_message(s, pp, pl, ad, al, d, dl, p, l))
            }
        }
        122 | 127 => {
            let (pp, pl) = a.msgpar();
            let (ad, al) = a.data();
            if k == 122 {
                lib!(fn_encrypt_message_begin(s, pp, pl, ad, al))
            } else {
                lib!(fn_decrypt_message_begin(s, pp, pl, ad, al))
            }
        }
        123 | 128 => {
            let (pp, pl) = a.msgpar();
            let (d, dl, p, l) = a.inout();
            let f = *a.r.pick(&[0, CKF_END_OF_MESSAGE, CKF_END_OF_MESSAGE, u64::MAX, 2]);
            if k == 123 {
                lib!(fn_encrypt_message_next(s, pp, pl, d, dl, p, l, f))
            } else {
                lib!(fn_decrypt_message_next(s, pp, pl, d, dl, p, l, f))
            }
        }
        124 => lib!(fn_message_encrypt_final(s)),
        129 => lib!(fn_message_decrypt_final(s)),
        130..=133 => {
            let (d, dl, p, l) = a.inout();
            lib!(dual_rv(k as u8 - 130, s, d, dl, p, l))
        }
        140 => {
            let m = a.mech(s, CKF_SIGN_RECOVER, 0, t);
            let o = a.obj();
            lib!(fn_sign_recover_init(s, m, o))
        }
        141 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_sign_recover(s, d, dl, p, l))
        }
        142 => {
            let m = a.mech(s, CKF_VERIFY_RECOVER, 0, t);
            let o = a.obj();
            lib!(fn_verify_recover_init(s, m, o))
        }
        143 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_verify_recover(s, d, dl, p, l))
        }
        144 => {
            let m = a.mech(s, CKF_SIGN, 0, t);
            let o = a.obj();
            lib!(fn_message_sign_init(s, m, o))
        }
        145 => {
            let m = a.mech(s, CKF_VERIFY, 0, t);
            let o = a.obj();
            lib!(fn_message_verify_init(s, m, o))
        }
        146 => {
            let (d, dl, p, l) = a.inout();
            lib!(fn_sign_message(s, null_mut(), 0, d, dl, p, l))
        }
        147 => {
            let (d, dl) = a.data();
            let (p, l) = a.data();
            lib!(fn_verify_message(s, null_mut(), 0, d, dl, p, l))
        }
        148 => lib!(fn_message_sign_final(s)) + lib!(fn_message_verify_final(s)),
        149 => lib!(fns::fn_get_function_status(s)) + lib!(fns::fn_cancel_function(s)),
        _ => {
            // up already: it says so, whatever else it is told
            let mut i: CK_C_INITIALIZE_ARGS = unsafe { std::mem::zeroed() };
            i.flags = a.num();
            let c = std::ffi::CString::new(format!("kryoptic_conf={}", crate::conf::path("sq"))).unwrap();
            if a.pct(50) {
                i.pReserved = c.as_ptr() as *mut c_void;
            }
            lib!(fn_initialize(&mut i as *mut _ as *mut c_void))
        }
    };
    res.rv = x;
    if x == CKR_OK as u64 {
        for h in made {
            if !h.is_null() {
                let v = unsafe { std::ptr::read_unaligned(h) };
                if v != 0 {
                    res.h.push(v);
                }
            }
        }
    }
    for (i, n) in &a.outs {
        if a.b[*i][*n..].iter().any(|c| *c != 0xA5) {
            res.n.push(0xdead);
        }
    }
    res
}
