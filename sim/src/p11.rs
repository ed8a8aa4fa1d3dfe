//! Executes plan operations as PKCS#11 calls on the real library.
use crate::child::ctx;
use crate::plan::*;
use crate::sched;
use kryoptic_lib::fns;
use kryoptic_lib::fns::digest::*;
use kryoptic_lib::fns::dualcrypto::*;
use kryoptic_lib::fns::encryption::*;
use kryoptic_lib::fns::general::*;
use kryoptic_lib::fns::keymgmt::*;
use kryoptic_lib::fns::objmgmt::*;
use kryoptic_lib::fns::sessmgmt::*;
use kryoptic_lib::fns::signing::*;
use kryoptic_lib::fns::stmgmt::*;
use kryoptic_lib::pkcs11::*;
use std::ffi::c_void;
use std::ptr::null_mut;

macro_rules! lib {
    ($e:expr) => {{
        sched::yield_point(0xe001);
        sched::set_in_lib(true);
        let r = $e;
        sched::set_in_lib(false);
        r as u64
    }};
}

pub struct Attrs {
    pub a: Vec<CK_ATTRIBUTE>,
    _b: Vec<Vec<u8>>,
}
pub fn attrs(t: &Tmpl) -> Attrs {
    let mut b: Vec<Vec<u8>> = t.iter().map(|(_, v)| v.bytes()).collect();
    let a = t
        .iter()
        .zip(b.iter_mut())
        .map(|((ty, _), v)| CK_ATTRIBUTE {
            type_: *ty,
            pValue: if v.is_empty() { null_mut() } else { v.as_mut_ptr() as *mut c_void },
            ulValueLen: v.len() as CK_ULONG,
        })
        .collect();
    Attrs { a, _b: b }
}

pub struct MechHold {
    pub m: CK_MECHANISM,
    _b: Vec<Vec<u8>>,
}

fn pod<T>(t: &T) -> Vec<u8> {
    unsafe {
        std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()).to_vec()
    }
}

pub fn mech(m: &Mech) -> MechHold {
    let mut b: Vec<Vec<u8>> = Vec::new();
    let mut keep = |v: &[u8]| -> (*mut u8, CK_ULONG) {
        // aligned and never reallocated: pushed as its own vector
        let mut w = Vec::with_capacity(v.len().max(1));
        w.extend_from_slice(v);
        let p = w.as_mut_ptr();
        b.push(w);
        (p, v.len() as CK_ULONG)
    };
    let pp: Option<Vec<u8>> = match &m.p {
        Par::None => None,
        Par::Raw(h) => Some(h.0.clone()),
        Par::Ulong(u) => Some(u.to_ne_bytes().to_vec()),
        Par::Gcm { iv, aad, taglen } => {
            let (i, il) = keep(&iv.0);
            let (a, al) = keep(&aad.0);
            Some(pod(&CK_GCM_PARAMS {
                pIv: i,
                ulIvLen: il,
                ulIvBits: il * 8,
                pAAD: if al == 0 { null_mut() } else { a },
                ulAADLen: al,
                ulTagBits: taglen * 8,
            }))
        }
        Par::Ccm { len, nonce, aad, maclen } => {
            let (i, il) = keep(&nonce.0);
            let (a, al) = keep(&aad.0);
            Some(pod(&CK_CCM_PARAMS {
                ulDataLen: *len,
                pNonce: i,
                ulNonceLen: il,
                pAAD: if al == 0 { null_mut() } else { a },
                ulAADLen: al,
                ulMACLen: *maclen,
            }))
        }
        Par::Ctr { bits, cb } => {
            let mut c = [0u8; 16];
            let n = cb.0.len().min(16);
            c[..n].copy_from_slice(&cb.0[..n]);
            Some(pod(&CK_AES_CTR_PARAMS {
                ulCounterBits: *bits,
                cb: c,
            }))
        }
        Par::Oaep { hash, mgf } => Some(pod(&CK_RSA_PKCS_OAEP_PARAMS {
            hashAlg: *hash,
            mgf: *mgf,
            source: CKZ_DATA_SPECIFIED,
            pSourceData: null_mut(),
            ulSourceDataLen: 0,
        })),
        Par::Pss { hash, mgf, salt } => Some(pod(&CK_RSA_PKCS_PSS_PARAMS {
            hashAlg: *hash,
            mgf: *mgf,
            sLen: *salt,
        })),
        Par::Hkdf { hash, salt, info } => {
            let (sp, sl) = keep(&salt.0);
            let (ip, il) = keep(&info.0);
            Some(pod(&CK_HKDF_PARAMS {
                bExtract: 1,
                bExpand: 1,
                prfHashMechanism: *hash,
                ulSaltType: if sl == 0 { CKF_HKDF_SALT_NULL } else { CKF_HKDF_SALT_DATA },
                pSalt: sp,
                ulSaltLen: sl,
                hSaltKey: 0,
                pInfo: ip,
                ulInfoLen: il,
            }))
        }
        Par::Ecdh { kdf, point_of } => {
            let pt = ctx()
                .and_then(|c| c.blobs.get(point_of).cloned())
                .unwrap_or_default();
            let (p, l) = keep(&pt);
            Some(pod(&CK_ECDH1_DERIVE_PARAMS {
                kdf: *kdf,
                ulSharedDataLen: 0,
                pSharedData: null_mut(),
                ulPublicDataLen: l,
                pPublicData: p,
            }))
        }
        Par::Kds(h) => {
            let (p, l) = keep(&h.0);
            Some(pod(&CK_KEY_DERIVATION_STRING_DATA { pData: p, ulLen: l }))
        }
        Par::Pbkdf2 { salt, it, pw } => {
            let (sp, sl) = keep(&salt.0);
            let (wp, wl) = keep(&pw.0);
            Some(pod(&CK_PKCS5_PBKD2_PARAMS2 {
                saltSource: CKZ_SALT_SPECIFIED,
                pSaltSourceData: sp as *mut c_void,
                ulSaltSourceDataLen: sl,
                iterations: *it,
                prf: CKP_PKCS5_PBKD2_HMAC_SHA256,
                pPrfData: null_mut(),
                ulPrfDataLen: 0,
                pPassword: wp,
                ulPasswordLen: wl,
            }))
        }
    };
    let (p, l) = match pp {
        Some(v) => keep(&v),
        None => (null_mut(), 0),
    };
    MechHold {
        m: CK_MECHANISM {
            mechanism: m.m,
            pParameter: p as *mut c_void,
            ulParameterLen: l,
        },
        _b: b,
    }
}

fn sv(s: V) -> Option<u64> {
    if s >= RAW {
        return Some((s - RAW) as u64);
    }
    ctx()?.vars_s.get(&s).copied()
}
fn ov(o: V) -> Option<u64> {
    if o >= RAW {
        return Some((o - RAW) as u64);
    }
    ctx()?.vars_o.get(&o).copied()
}

fn conf_path(conf: &str) -> std::ffi::CString {
    std::ffi::CString::new(format!("kryoptic_conf={}", crate::conf::path(conf))).unwrap()
}

fn rv(rv: u64) -> Res {
    Res {
        rv,
        ..Default::default()
    }
}

pub const GETBUF: usize = 4096;

/// one C_GetAttributeValue call with roomy buffers
fn get_attrs(s: u64, o: u64, types: &[u64]) -> (u64, Vec<(u64, Option<Hx>)>) {
    let mut bufs: Vec<Vec<u8>> = types.iter().map(|_| vec![0xA5u8; GETBUF]).collect();
    let mut t: Vec<CK_ATTRIBUTE> = types
        .iter()
        .zip(bufs.iter_mut())
        .map(|(ty, b)| CK_ATTRIBUTE {
            type_: *ty,
            pValue: b.as_mut_ptr() as *mut c_void,
            ulValueLen: GETBUF as CK_ULONG,
        })
        .collect();
    let r = lib!(fn_get_attribute_value(s, o, t.as_mut_ptr(), t.len() as CK_ULONG));
    let ok = matches!(
        r as CK_RV,
        CKR_OK | CKR_ATTRIBUTE_SENSITIVE | CKR_ATTRIBUTE_TYPE_INVALID | CKR_BUFFER_TOO_SMALL
    );
    let mut v = Vec::new();
    for (i, ty) in types.iter().enumerate() {
        let l = t[i].ulValueLen;
        if l == CK_UNAVAILABLE_INFORMATION || l as usize > GETBUF {
            // whatever was written although the value is withheld
            let touched = bufs[i].iter().any(|b| *b != 0xA5);
            v.push((
                *ty,
                if touched { Some(Hx(bufs[i].clone())) } else { None },
            ));
        } else if ok {
            v.push((*ty, Some(Hx(bufs[i][..l as usize].to_vec()))));
        }
    }
    (r, if ok { v } else { vec![] })
}

/// an output-producing call under the chosen buffer discipline; returns rv,
/// output and the reported lengths
fn with_buf(
    b: Buf,
    f: &mut dyn FnMut(*mut u8, *mut CK_ULONG) -> u64,
) -> Res {
    let mut r = Res::default();
    match b {
        Buf::Query => {
            let mut l: CK_ULONG = 0;
            r.rv = f(null_mut(), &mut l);
            r.n.push(l);
        }
        Buf::Len(k) => {
            let mut v = vec![0xA5u8; k as usize + 32];
            let mut l = k as CK_ULONG;
            r.rv = f(v.as_mut_ptr(), &mut l);
            r.n.push(l);
            if v[k as usize..].iter().any(|x| *x != 0xA5) {
                r.n.push(0xdead);
            }
            if r.rv == CKR_OK as u64 {
                v.truncate((l as usize).min(k as usize));
                r.out = Some(Hx(v));
            }
        }
        Buf::Exact => {
            let mut l: CK_ULONG = 0;
            r.rv = f(null_mut(), &mut l);
            r.n.push(l);
            if r.rv == CKR_OK as u64 {
                if l > 1 << 20 {
                    r.n.push(0xbad);
                    return r;
                }
                let k = l as usize;
                let mut v = vec![0xA5u8; k + 32];
                r.rv = f(v.as_mut_ptr(), &mut l);
                r.n.push(l);
                if v[k..].iter().any(|x| *x != 0xA5) {
                    r.n.push(0xdead);
                }
                if r.rv == CKR_OK as u64 {
                    v.truncate((l as usize).min(k));
                    r.out = Some(Hx(v));
                }
            }
        }
        Buf::Retry(k) => {
            let mut v = vec![0xA5u8; k as usize + 32];
            let mut l = k as CK_ULONG;
            r.rv = f(v.as_mut_ptr(), &mut l);
            if v[k as usize..].iter().any(|x| *x != 0xA5) {
                r.n.push(0xdead);
            }
            if r.rv == CKR_BUFFER_TOO_SMALL as u64 {
                let mut x = with_buf(Buf::Big, f);
                x.n.append(&mut r.n);
                x.n.push(0x5407);
                return x;
            }
            r.n.push(l);
            if r.rv == CKR_OK as u64 {
                v.truncate((l as usize).min(k as usize));
                r.out = Some(Hx(v));
            }
        }
        Buf::Big => {
            let mut v = vec![0xA5u8; 65536];
            let mut l = 65536 as CK_ULONG;
            r.rv = f(v.as_mut_ptr(), &mut l);
            r.n.push(l);
            if r.rv == CKR_OK as u64 {
                v.truncate((l as usize).min(65536));
                r.out = Some(Hx(v));
            }
        }
    }
    r
}

fn find_all(s: u64, t: &Tmpl, chunk: u32) -> Res {
    let mut a = attrs(t);
    let mut r = rv(lib!(fn_find_objects_init(
        s,
        if a.a.is_empty() { null_mut() } else { a.a.as_mut_ptr() },
        a.a.len() as CK_ULONG
    )));
    if r.rv != CKR_OK as u64 {
        return r;
    }
    let chunk = chunk.max(1) as usize;
    for _ in 0..20000 {
        let mut h = vec![0 as CK_OBJECT_HANDLE; chunk];
        let mut n: CK_ULONG = 0;
        let x = lib!(fn_find_objects(s, h.as_mut_ptr(), chunk as CK_ULONG, &mut n));
        if x != CKR_OK as u64 {
            r.rv = x;
            break;
        }
        if n == 0 {
            break;
        }
        r.h.extend(h[..(n as usize).min(chunk)].iter().map(|x| *x as u64));
    }
    let x = lib!(fn_find_objects_final(s));
    if r.rv == CKR_OK as u64 && x != CKR_OK as u64 {
        r.rv = x;
    }
    r
}

pub const AUDIT_ATTRS: &[u64] = &[
    CKA_CLASS,
    CKA_KEY_TYPE,
    CKA_TOKEN,
    CKA_PRIVATE,
    CKA_LABEL,
    CKA_ID,
    CKA_APPLICATION,
    CKA_VALUE,
    CKA_PRIVATE_EXPONENT,
    CKA_PRIME_1,
    CKA_COEFFICIENT,
    CKA_SENSITIVE,
    CKA_EXTRACTABLE,
    CKA_MODIFIABLE,
    CKA_COPYABLE,
    CKA_DESTROYABLE,
    CKA_ENCRYPT,
    CKA_DECRYPT,
    CKA_SIGN,
    CKA_VERIFY,
    CKA_DERIVE,
    CKA_WRAP,
    CKA_UNWRAP,
    CKA_ALWAYS_SENSITIVE,
    CKA_NEVER_EXTRACTABLE,
    CKA_LOCAL,
    CKA_UNIQUE_ID,
    CKA_OBJECT_ID,
    CKA_MODULUS,
    CKA_EC_POINT,
    CKA_START_DATE,
    CKA_END_DATE,
    CKA_OTP_COUNTER,
    CKA_KEY_GEN_MECHANISM,
    CKA_TRUSTED,
    CKA_WRAP_WITH_TRUSTED,
    CKA_ALLOWED_MECHANISMS,
    CKA_SUBJECT,
    CKA_ISSUER,
    CKA_SERIAL_NUMBER,
    CKA_HASH_OF_CERTIFICATE,
    CKA_TRUST_SERVER_AUTH,
    CKA_TRUST_CLIENT_AUTH,
    CKA_TRUST_OCSP_SIGNING,
];

fn bytes_ptr(v: &mut [u8]) -> *mut u8 {
    if v.is_empty() { null_mut() } else { v.as_mut_ptr() }
}

/// executes one operation; also returns the handles its variables stood for
pub fn exec(op: &Op) -> (Res, Vec<u64>) {
    let mut vars: Vec<u64> = Vec::new();
    macro_rules! sess {
        ($s:expr) => {
            match sv(*$s) {
                Some(h) => {
                    vars.push(h);
                    crate::child::log(&Ev::Vars {
                        id: sched::what(),
                        v: vars.clone(),
                    });
                    h
                }
                None => return (rv(SKIP), vars),
            }
        };
    }
    macro_rules! obj {
        ($s:expr) => {
            match ov(*$s) {
                Some(h) => {
                    vars.push(h);
                    crate::child::log(&Ev::Vars {
                        id: sched::what(),
                        v: vars.clone(),
                    });
                    h
                }
                None => return (rv(SKIP), vars),
            }
        };
    }
    let bind_o = |o: V, h: u64| {
        if let Some(c) = ctx() {
            c.vars_o.insert(o, h);
        }
    };
    let ok = CKR_OK as u64;
    let r = match op {
        Op::Nop => rv(0),
        Op::Init { conf } => {
            let c = conf_path(conf);
            let mut args: CK_C_INITIALIZE_ARGS = unsafe { std::mem::zeroed() };
            args.flags = CKF_OS_LOCKING_OK;
            args.pReserved = c.as_ptr() as *mut c_void;
            rv(lib!(fn_initialize(&mut args as *mut _ as *mut c_void)))
        }
        Op::Fini => rv(lib!(fn_finalize(null_mut()))),
        Op::Open { slot, rw, s } => {
            let mut h: CK_SESSION_HANDLE = 0;
            let fl = CKF_SERIAL_SESSION | if *rw { CKF_RW_SESSION } else { 0 };
            let mut r = rv(lib!(fn_open_session(*slot, fl, null_mut(), None, &mut h)));
            if r.rv == ok {
                r.h.push(h);
                if let Some(c) = ctx() {
                    c.vars_s.insert(*s, h);
                }
            }
            r
        }
        Op::Close { s } => rv(lib!(fn_close_session(sess!(s)))),
        Op::CloseAll { slot } => rv(lib!(fn_close_all_sessions(*slot))),
        Op::SInfo { s } => {
            let h = sess!(s);
            let mut i: CK_SESSION_INFO = unsafe { std::mem::zeroed() };
            let mut r = rv(lib!(fn_get_session_info(h, &mut i)));
            if r.rv == ok {
                r.n = vec![i.slotID, i.state, i.flags, i.ulDeviceError];
            }
            r
        }
        Op::TInfo { slot } => {
            let mut i: CK_TOKEN_INFO = unsafe { std::mem::zeroed() };
            let mut r = rv(lib!(fn_get_token_info(*slot, &mut i)));
            if r.rv == ok {
                r.n = vec![i.flags, i.ulSessionCount, i.ulRwSessionCount];
                r.out = Some(Hx(i.label.to_vec()));
                r.a = vec![(CKA_SERIAL_NUMBER, Some(Hx(i.serialNumber.to_vec())))];
            }
            r
        }
        Op::Login { s, u, pin } => {
            let h = sess!(s);
            let mut p = pin.as_bytes().to_vec();
            rv(lib!(fn_login(h, *u, bytes_ptr(&mut p), p.len() as CK_ULONG)))
        }
        Op::Logout { s } => rv(lib!(fn_logout(sess!(s)))),
        Op::InitToken { slot, pin, label } => {
            let mut p = pin.as_bytes().to_vec();
            let mut l = vec![b' '; 32];
            let n = label.len().min(32);
            l[..n].copy_from_slice(&label.as_bytes()[..n]);
            rv(lib!(fn_init_token(
                *slot,
                bytes_ptr(&mut p),
                p.len() as CK_ULONG,
                l.as_mut_ptr()
            )))
        }
        Op::InitPin { s, pin } => {
            let h = sess!(s);
            let mut p = pin.as_bytes().to_vec();
            rv(lib!(fn_init_pin(h, bytes_ptr(&mut p), p.len() as CK_ULONG)))
        }
        Op::SetPin { s, old, new } => {
            let h = sess!(s);
            let mut a = old.as_bytes().to_vec();
            let mut b = new.as_bytes().to_vec();
            rv(lib!(fn_set_pin(
                h,
                bytes_ptr(&mut a),
                a.len() as CK_ULONG,
                bytes_ptr(&mut b),
                b.len() as CK_ULONG
            )))
        }
        Op::Create { s, o, t } => {
            let sh = sess!(s);
            let mut a = attrs(t);
            let mut h: CK_OBJECT_HANDLE = 0;
            let mut r = rv(lib!(fn_create_object(
                sh,
                a.a.as_mut_ptr(),
                a.a.len() as CK_ULONG,
                &mut h
            )));
            if r.rv == ok {
                r.h.push(h);
                bind_o(*o, h);
            }
            r
        }
        Op::Copy { s, from, o, t } => {
            let sh = sess!(s);
            let fh = obj!(from);
            let mut a = attrs(t);
            let mut h: CK_OBJECT_HANDLE = 0;
            let mut r = rv(lib!(fn_copy_object(
                sh,
                fh,
                if a.a.is_empty() { null_mut() } else { a.a.as_mut_ptr() },
                a.a.len() as CK_ULONG,
                &mut h
            )));
            if r.rv == ok {
                r.h.push(h);
                bind_o(*o, h);
            }
            r
        }
        Op::Destroy { s, o } => {
            let sh = sess!(s);
            let h = obj!(o);
            rv(lib!(fn_destroy_object(sh, h)))
        }
        Op::Get { s, o, a } => {
            let sh = sess!(s);
            let h = obj!(o);
            let (x, v) = get_attrs(sh, h, a);
            Res {
                rv: x,
                a: v,
                ..Default::default()
            }
        }
        Op::Set { s, o, t } => {
            let sh = sess!(s);
            let h = obj!(o);
            let mut a = attrs(t);
            rv(lib!(fn_set_attribute_value(
                sh,
                h,
                a.a.as_mut_ptr(),
                a.a.len() as CK_ULONG
            )))
        }
        Op::Size { s, o } => {
            let sh = sess!(s);
            let h = obj!(o);
            let mut n: CK_ULONG = 0;
            let mut r = rv(lib!(fn_get_object_size(sh, h, &mut n)));
            r.n.push(n);
            r
        }
        Op::Find { s, t, chunk } => find_all(sess!(s), t, *chunk),
        Op::FindInit { s, t } => {
            let sh = sess!(s);
            let mut a = attrs(t);
            rv(lib!(fn_find_objects_init(
                sh,
                if a.a.is_empty() { null_mut() } else { a.a.as_mut_ptr() },
                a.a.len() as CK_ULONG
            )))
        }
        Op::FindNext { s, n } => {
            let sh = sess!(s);
            let mut h = vec![0 as CK_OBJECT_HANDLE; (*n).max(1) as usize];
            let mut k: CK_ULONG = 0;
            let mut r = rv(lib!(fn_find_objects(sh, h.as_mut_ptr(), *n as CK_ULONG, &mut k)));
            if r.rv == ok {
                r.n.push(k);
                r.h = h[..(k as usize).min(h.len())].to_vec();
            }
            r
        }
        Op::FindFinal { s } => rv(lib!(fn_find_objects_final(sess!(s)))),
        Op::Locate { s, o, t } => {
            let sh = sess!(s);
            let r = find_all(sh, t, 8);
            if r.rv == ok && r.h.len() == 1 {
                bind_o(*o, r.h[0]);
            }
            r
        }
        Op::Audit { s, t } => {
            let sh = sess!(s);
            let mut r = find_all(sh, t, 32);
            if r.rv == ok {
                let hs = std::mem::take(&mut r.h);
                for h in hs {
                    let (_, c) = get_attrs(sh, h, &[CKA_CLASS]);
                    if matches!(ul(&c, CKA_CLASS), Some(CKO_MECHANISM | CKO_PROFILE)) {
                        continue;
                    }
                    // values apart: they may be out of reach when the rest is not
                    let (pubs, secs): (Vec<u64>, Vec<u64>) =
                        AUDIT_ATTRS.iter().partition(|a| !crate::model::is_secret_attr(**a));
                    let (mut x, mut v) = get_attrs(sh, h, &pubs);
                    if !v.is_empty() {
                        let (y, w) = get_attrs(sh, h, &secs);
                        v.extend(w);
                        if ![CKR_OK, CKR_ATTRIBUTE_SENSITIVE, CKR_ATTRIBUTE_TYPE_INVALID, CKR_BUFFER_TOO_SMALL]
                            .contains(&(y as CK_RV))
                        {
                            x = y;
                        }
                    }
                    r.h.push(h);
                    r.objs.push((h, x, v));
                }
            }
            r
        }
        Op::GenKey { s, o, m, t } => {
            let sh = sess!(s);
            let mut a = attrs(t);
            let mut mh = mech(m);
            let mut h: CK_OBJECT_HANDLE = 0;
            let mut r = rv(lib!(fn_generate_key(
                sh,
                &mut mh.m,
                a.a.as_mut_ptr(),
                a.a.len() as CK_ULONG,
                &mut h
            )));
            if r.rv == ok {
                r.h.push(h);
                bind_o(*o, h);
            }
            r
        }
        Op::GenPair { s, o, o2, m, t, t2 } => {
            let sh = sess!(s);
            let mut a = attrs(t);
            let mut b = attrs(t2);
            let mut mh = mech(m);
            let mut h: CK_OBJECT_HANDLE = 0;
            let mut h2: CK_OBJECT_HANDLE = 0;
            let mut r = rv(lib!(fn_generate_key_pair(
                sh,
                &mut mh.m,
                a.a.as_mut_ptr(),
                a.a.len() as CK_ULONG,
                b.a.as_mut_ptr(),
                b.a.len() as CK_ULONG,
                &mut h,
                &mut h2
            )));
            if r.rv == ok {
                r.h = vec![h, h2];
                bind_o(*o, h);
                bind_o(*o2, h2);
            }
            r
        }
        Op::Wrap { s, m, k, o, b } => {
            let sh = sess!(s);
            let kh = obj!(k);
            let h = obj!(o);
            let mut mh = mech(m);
            let r = with_buf(Buf::Big, &mut |p, l| {
                lib!(fn_wrap_key(sh, &mut mh.m, kh, h, p, l))
            });
            if let (Some(x), Some(c)) = (&r.out, ctx()) {
                c.blobs.insert(*b, x.0.clone());
            }
            r
        }
        Op::Unwrap { s, m, k, b, o, t } => {
            let sh = sess!(s);
            let kh = obj!(k);
            let mut w = match ctx().and_then(|c| c.blobs.get(b).cloned()) {
                Some(w) => w,
                None => return (rv(SKIP), vars),
            };
            let mut mh = mech(m);
            let mut a = attrs(t);
            let mut h: CK_OBJECT_HANDLE = 0;
            let mut r = rv(lib!(fn_unwrap_key(
                sh,
                &mut mh.m,
                kh,
                w.as_mut_ptr(),
                w.len() as CK_ULONG,
                a.a.as_mut_ptr(),
                a.a.len() as CK_ULONG,
                &mut h
            )));
            if r.rv == ok {
                r.h.push(h);
                bind_o(*o, h);
            }
            r
        }
        Op::Derive { s, m, k, o, t } => {
            let sh = sess!(s);
            let kh = obj!(k);
            let mut mh = mech(m);
            let mut a = attrs(t);
            let mut h: CK_OBJECT_HANDLE = 0;
            let mut r = rv(lib!(fn_derive_key(
                sh,
                &mut mh.m,
                kh,
                a.a.as_mut_ptr(),
                a.a.len() as CK_ULONG,
                &mut h
            )));
            if r.rv == ok {
                r.h.push(h);
                bind_o(*o, h);
            }
            r
        }
        Op::KInit { s, f, m, o } => {
            let sh = sess!(s);
            let mut mh = mech(m);
            if *f == Fun::Dig {
                rv(lib!(fn_digest_init(sh, &mut mh.m)))
            } else {
                let h = obj!(o);
                rv(match f {
                    Fun::Enc => lib!(fn_encrypt_init(sh, &mut mh.m, h)),
                    Fun::Dec => lib!(fn_decrypt_init(sh, &mut mh.m, h)),
                    Fun::Sig => lib!(fn_sign_init(sh, &mut mh.m, h)),
                    _ => lib!(fn_verify_init(sh, &mut mh.m, h)),
                })
            }
        }
        Op::KOne { s, f, d, sig, b } => one(sess!(s), *f, &d.0, &sig.0, *b),
        Op::KSave { s, f, d, v } => {
            let r = one(sess!(s), *f, &d.0, &[], Buf::Big);
            if let (Some(x), Some(c)) = (&r.out, ctx()) {
                c.blobs.insert(*v, x.0.clone());
            }
            r
        }
        Op::Probe { s, o } => {
            let sh = sess!(s);
            let h = obj!(o);
            probe(sh, h)
        }
        Op::UseBlob { s, f, v, d, b } => {
            let sh = sess!(s);
            let w = match ctx().and_then(|c| c.blobs.get(v).cloned()) {
                Some(w) => w,
                None => return (rv(SKIP), vars),
            };
            if *f == Fun::Ver {
                one(sh, *f, &d.0, &w, *b)
            } else {
                one(sh, *f, &w, &[], *b)
            }
        }
        Op::KUpd { s, f, d, b } => upd(sess!(s), *f, &d.0, *b),
        Op::KFin { s, f, sig, b } => fin(sess!(s), *f, &sig.0, *b),
        Op::KUpdB { s, f, v, at, n, flip, b } => {
            let sh = sess!(s);
            let w = match ctx().and_then(|c| c.blobs.get(v).cloned()) {
                Some(w) => damaged(&w, *flip),
                None => return (rv(SKIP), vars),
            };
            let a = (*at as usize).min(w.len());
            let e = a.saturating_add(*n as usize).min(w.len());
            upd(sh, *f, &w[a..e], *b)
        }
        Op::KOneB { s, f, d, v, flip, b } => {
            let sh = sess!(s);
            let w = match ctx().and_then(|c| c.blobs.get(v).cloned()) {
                Some(w) => damaged(&w, *flip),
                None => return (rv(SKIP), vars),
            };
            if *f == Fun::Ver {
                one(sh, *f, &d.0, &w, *b)
            } else {
                one(sh, *f, &w, &[], *b)
            }
        }
        Op::KFinB { s, v, flip } => {
            let sh = sess!(s);
            let mut w = match ctx().and_then(|c| c.blobs.get(v).cloned()) {
                Some(w) => damaged(&w, *flip),
                None => return (rv(SKIP), vars),
            };
            rv(lib!(fn_verify_final(sh, full_ptr(&mut w), w.len() as CK_ULONG)))
        }
        Op::KFinS { s, f, v, b } => {
            let sh = sess!(s);
            let r = fin(sh, *f, &[], *b);
            if let (Some(x), Some(c)) = (&r.out, ctx()) {
                c.blobs.insert(*v, x.0.clone());
            }
            r
        }
        Op::Dual { s, k, d, b } => dual(sess!(s), *k, &d.0, *b),
        Op::DualB { s, k, v, at, n, b } => {
            let sh = sess!(s);
            let w = match ctx().and_then(|c| c.blobs.get(v).cloned()) {
                Some(w) => w,
                None => return (rv(SKIP), vars),
            };
            let a = (*at as usize).min(w.len());
            let e = a.saturating_add(*n as usize).min(w.len());
            dual(sh, *k, &w[a..e], *b)
        }
        Op::DigestKey { s, o } => {
            let sh = sess!(s);
            let h = obj!(o);
            rv(lib!(fn_digest_key(sh, h)))
        }
        Op::MsgInit { s, f, m, o } => {
            let sh = sess!(s);
            let h = obj!(o);
            let mut mh = mech(m);
            rv(if *f == Fun::Enc {
                lib!(fn_message_encrypt_init(sh, &mut mh.m, h))
            } else {
                lib!(fn_message_decrypt_init(sh, &mut mh.m, h))
            })
        }
        Op::Msg { s, f, how, v, p, aad, d, src, at, n, flip, b } => {
            let sh = sess!(s);
            let old = ctx().and_then(|c| c.msgs.get(v).cloned());
            let mut rec = match (how, &old) {
                (2.., None) => return (rv(SKIP), vars),
                (2.., Some(o)) => o.clone(),
                (_, Some(o)) if p.keep && o.iv.len() == p.iv.0.len() => MsgRec {
                    iv: o.iv.clone(),
                    ..Default::default()
                },
                _ => MsgRec {
                    iv: p.iv.0.clone(),
                    ..Default::default()
                },
            };
            rec.tag.resize(p.tag as usize, 0);
            let mut data = d.0.clone();
            if *f == Fun::Dec {
                let Some(m) = ctx().and_then(|c| c.msgs.get(src).cloned()) else {
                    return (rv(SKIP), vars);
                };
                (data, rec.tag) = msg_input(&m, *how, *at, *n, *flip);
                if *how < 2 {
                    rec.iv = m.iv;
                }
            }
            let was = rec.iv.clone();
            let tl = rec.tag.len() as CK_ULONG;
            let mut g = CK_GCM_MESSAGE_PARAMS {
                pIv: full_ptr(&mut rec.iv),
                ulIvLen: rec.iv.len() as CK_ULONG,
                ulIvFixedBits: p.fixed,
                ivGenerator: p.gen_,
                pTag: full_ptr(&mut rec.tag),
                ulTagBits: tl * 8,
            };
            let mut c = CK_CCM_MESSAGE_PARAMS {
                ulDataLen: p.len,
                pNonce: full_ptr(&mut rec.iv),
                ulNonceLen: rec.iv.len() as CK_ULONG,
                ulNonceFixedBits: p.fixed,
                nonceGenerator: p.gen_,
                pMAC: full_ptr(&mut rec.tag),
                ulMACLen: tl,
            };
            let (pp, pl) = if p.ccm {
                (&mut c as *mut _ as *mut c_void, std::mem::size_of_val(&c) as CK_ULONG)
            } else {
                (&mut g as *mut _ as *mut c_void, std::mem::size_of_val(&g) as CK_ULONG)
            };
            let mut aadb = aad.0.clone();
            let (ap, al) = (bytes_ptr(&mut aadb), aadb.len() as CK_ULONG);
            let (dp, dl) = (full_ptr(&mut data), data.len() as CK_ULONG);
            let end = if *how == 3 { CKF_END_OF_MESSAGE } else { 0 };
            let mut r = match (how, f) {
                (0, Fun::Enc) => with_buf(*b, &mut |o, l| lib!(fn_encrypt_message(sh, pp, pl, ap, al, dp, dl, o, l))),
                (0, _) => with_buf(*b, &mut |o, l| lib!(fn_decrypt_message(sh, pp, pl, ap, al, dp, dl, o, l))),
                (1, Fun::Enc) => rv(lib!(fn_encrypt_message_begin(sh, pp, pl, ap, al))),
                (1, _) => rv(lib!(fn_decrypt_message_begin(sh, pp, pl, ap, al))),
                (_, Fun::Enc) => with_buf(*b, &mut |o, l| lib!(fn_encrypt_message_next(sh, pp, pl, dp, dl, o, l, end))),
                _ => with_buf(*b, &mut |o, l| lib!(fn_decrypt_message_next(sh, pp, pl, dp, dl, o, l, end))),
            };
            if r.rv == ok {
                r.a.push((0, Some(Hx(rec.iv.clone()))));
                r.a.push((2, Some(Hx(was))));
                if matches!(how, 0 | 3) && *f == Fun::Enc {
                    r.a.push((1, Some(Hx(rec.tag.clone()))));
                }
            }
            if *f == Fun::Enc {
                if let Some(o) = &r.out {
                    rec.ct.extend_from_slice(&o.0);
                }
            }
            if let Some(c) = ctx() {
                c.msgs.insert(*v, rec);
            }
            r
        }
        Op::MsgFinal { s, f } => {
            let sh = sess!(s);
            rv(if *f == Fun::Enc {
                lib!(fn_message_encrypt_final(sh))
            } else {
                lib!(fn_message_decrypt_final(sh))
            })
        }
        Op::SaveSt { s, v, b } => {
            let sh = sess!(s);
            let r = with_buf(*b, &mut |p, l| lib!(fn_get_operation_state(sh, p, l)));
            if let (Some(x), Some(c)) = (&r.out, ctx()) {
                c.blobs.insert(*v, x.0.clone());
            }
            r
        }
        Op::RestSt { s, v, mutate } => {
            let sh = sess!(s);
            let mut w = match ctx().and_then(|c| c.blobs.get(v).cloned()) {
                Some(w) => w,
                None => return (rv(SKIP), vars),
            };
            let mut g = crate::rng::Rng::new(*mutate);
            match *mutate {
                0 => {}
                m if m % 4 == 1 && !w.is_empty() => {
                    let i = g.idx(w.len());
                    w[i] ^= 1 << g.idx(8);
                }
                m if m % 4 == 2 && !w.is_empty() => {
                    let n = g.idx(w.len());
                    w.truncate(n);
                }
                m if m % 4 == 3 => {
                    let n = 1 + g.idx(20);
                    let e = g.bytes(n);
                    w.extend(e);
                }
                _ => {
                    let n = w.len();
                    w = g.bytes(n);
                }
            }
            // stay within valid memory even for empty states
            let mut hold = w.clone();
            hold.push(0);
            rv(lib!(fn_set_operation_state(
                sh,
                hold.as_mut_ptr(),
                w.len() as CK_ULONG,
                0,
                0
            )))
        }
        Op::Cancel { s, flags } => {
            let sh = sess!(s);
            rv(lib!(fn_session_cancel(sh, *flags)))
        }
        Op::Random { s, n } => {
            let sh = sess!(s);
            let start = ctx().map(|c| c.issued.len()).unwrap_or(0);
            let mut v = vec![0xA5u8; *n as usize + 16];
            let mut r = rv(lib!(fns::fn_generate_random(sh, v.as_mut_ptr(), *n as CK_ULONG)));
            if v[*n as usize..].iter().any(|x| *x != 0xA5) {
                r.n.push(0xdead);
            }
            v.truncate(*n as usize);
            if v.len() > 2048 {
                // too long to keep: look at it here
                let mut seen = std::collections::HashSet::new();
                if r.rv == ok && v.windows(8).any(|w| !seen.insert(w.to_vec())) {
                    r.n.push(0xbad1);
                }
                let tail = v.split_off(v.len() - 512);
                v.truncate(512);
                v.extend_from_slice(&tail);
            }
            let fresh = ctx()
                .map(|c| crate::simfs::find(&c.issued[start.min(c.issued.len())..], &v))
                .unwrap_or(false);
            r.n.push(fresh as u64);
            r.out = Some(Hx(v));
            r
        }
        Op::Seed { s, d } => {
            let sh = sess!(s);
            let mut v = d.0.clone();
            rv(lib!(fns::fn_seed_random(sh, v.as_mut_ptr(), v.len() as CK_ULONG)))
        }
        Op::SlotList => {
            let mut v = vec![0 as CK_SLOT_ID; 64];
            let mut n: CK_ULONG = 64;
            let mut r = rv(lib!(fn_get_slot_list(1, v.as_mut_ptr(), &mut n)));
            if r.rv == ok {
                r.n = v[..(n as usize).min(64)].to_vec();
            }
            r
        }
        Op::MechList { slot } => {
            let mut v = vec![0 as CK_MECHANISM_TYPE; 1024];
            let mut n: CK_ULONG = 1024;
            let mut r = rv(lib!(fn_get_mechanism_list(*slot, v.as_mut_ptr(), &mut n)));
            if r.rv == ok {
                r.n = v[..(n as usize).min(1024)].to_vec();
            }
            r
        }
        Op::MechInfo { slot, m } => {
            let mut i: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() };
            rv(lib!(fn_get_mechanism_info(*slot, *m, &mut i)))
        }
        Op::Otp { s, o, .. } | Op::OtpVer { s, o, .. } => {
            let sh = sess!(s);
            let h = obj!(o);
            let mut m = CK_MECHANISM {
                mechanism: CKM_HOTP,
                pParameter: null_mut(),
                ulParameterLen: 0,
            };
            let x = match op {
                Op::Otp { .. } => lib!(fn_sign_init(sh, &mut m, h)),
                _ => lib!(fn_verify_init(sh, &mut m, h)),
            };
            if x != ok {
                return (
                    Res {
                        rv: x,
                        n: vec![1],
                        ..Default::default()
                    },
                    vars,
                );
            }
            match op {
                Op::Otp { how, .. } => otp_end(sh, *how),
                Op::OtpVer { d, how, .. } => otp_ver_end(sh, &d.0, *how),
                _ => rv(0),
            }
        }
        Op::OtpEnd { s, how } => otp_end(sess!(s), *how),
        Op::OtpVerEnd { s, d, how } => otp_ver_end(sess!(s), &d.0, *how),
        Op::Odd { s, o, k } => odd(sess!(s), ov(*o).unwrap_or(0), *k),
        Op::Wild { s, o, out, t, k, slot, seed } => {
            let sh = sess!(s);
            let objs: Vec<u64> = o.iter().filter_map(|v| ov(*v)).collect();
            let r = crate::wild::wild(sh, &objs, t, *k, *slot, *seed);
            if let Some(h) = r.h.last() {
                bind_o(*out, *h);
            }
            r
        }
    };
    (r, vars)
}

/// the password in a CK_OTP_SIGNATURE_INFO laid out in buf
fn otp_value(buf: &[u8], len: usize) -> Option<Vec<u8>> {
    let base = buf.as_ptr() as usize;
    let u = |o: usize| -> Option<usize> {
        Some(usize::from_ne_bytes(buf.get(o..o + 8)?.try_into().ok()?))
    };
    let pp = u(0)?;
    let cnt = u(8)?;
    if cnt != 1 || pp < base {
        return None;
    }
    let po = pp - base;
    let pv = u(po + 8)?;
    let vl = u(po + 16)?;
    if pv < base || pv - base + vl > len.max(buf.len()) {
        return None;
    }
    Some(buf[pv - base..pv - base + vl].to_vec())
}

fn otp_end(sh: u64, how: u8) -> Res {
    let ok = CKR_OK as u64;
    let mut buf = vec![0u8; 256];
    let mut no = [0u8; 1];
    let mut l: CK_ULONG = 256;
    match how {
        1 => {
            l = 10;
            let x = lib!(fn_sign(sh, no.as_mut_ptr(), 0, buf.as_mut_ptr(), &mut l));
            if x == ok {
                return Res { rv: x, n: vec![0xdead], ..Default::default() };
            }
            l = 256;
        }
        2 => {
            lib!(fn_sign(sh, no.as_mut_ptr(), 0, null_mut(), &mut l));
            l = l.min(256);
        }
        _ => {}
    }
    let mut r = rv(if how == 3 {
        lib!(fn_sign_final(sh, buf.as_mut_ptr(), &mut l))
    } else {
        lib!(fn_sign(sh, no.as_mut_ptr(), 0, buf.as_mut_ptr(), &mut l))
    });
    r.n.push(2);
    // bytes handed out count as issued even if the call failed
    r.out = otp_value(&buf, 256).filter(|v| !v.is_empty()).map(Hx);
    r
}

fn otp_ver_end(sh: u64, d: &[u8], how: u8) -> Res {
    let mut w = d.to_vec();
    let mut no = [0u8; 1];
    let mut r = rv(if how == 1 {
        lib!(fn_verify_final(sh, w.as_mut_ptr(), w.len() as CK_ULONG))
    } else {
        lib!(fn_verify(sh, no.as_mut_ptr(), 0, w.as_mut_ptr(), w.len() as CK_ULONG))
    });
    r.n.push(2);
    r
}

/// what is handed in to decrypt: data and tag
pub fn msg_input(m: &MsgRec, how: u8, at: u32, n: u32, flip: u32) -> (Vec<u8>, Vec<u8>) {
    match how {
        0 => {
            let mut w = m.ct.clone();
            w.extend_from_slice(&m.tag);
            // no change of length: tag and data could not be told apart
            let f = if flip >= 0xffff_fff0 { 1 } else { flip };
            let w = damaged(&w, f);
            let k = m.ct.len();
            (w[..k].to_vec(), w[k..].to_vec())
        }
        1 => (vec![], m.tag.clone()),
        _ => {
            let a = (at as usize).min(m.ct.len());
            let e = a.saturating_add(n as usize).min(m.ct.len());
            (damaged(&m.ct[a..e], flip), m.tag.clone())
        }
    }
}

fn damaged(w: &[u8], flip: u32) -> Vec<u8> {
    let mut w = w.to_vec();
    match flip {
        0 => {}
        u32::MAX => {
            w.pop();
        }
        0xffff_fffe => w.push(0x5a),
        k if !w.is_empty() => {
            let bit = (k - 1) as usize % (w.len() * 8);
            w[bit / 8] ^= 1 << (bit % 8);
        }
        _ => {}
    }
    w
}

/// never null, not even for nothing
fn full_ptr(v: &mut Vec<u8>) -> *mut u8 {
    v.reserve(1);
    v.as_mut_ptr()
}

fn upd(sh: u64, f: Fun, d: &[u8], b: Buf) -> Res {
    let mut d = d.to_vec();
    let (p, l) = (full_ptr(&mut d), d.len() as CK_ULONG);
    match f {
        Fun::Enc => with_buf(b, &mut |o, ol| lib!(fn_encrypt_update(sh, p, l, o, ol))),
        Fun::Dec => with_buf(b, &mut |o, ol| lib!(fn_decrypt_update(sh, p, l, o, ol))),
        Fun::Dig => rv(lib!(fn_digest_update(sh, p, l))),
        Fun::Sig => rv(lib!(fn_sign_update(sh, p, l))),
        Fun::Ver => rv(lib!(fn_verify_update(sh, p, l))),
    }
}

fn fin(sh: u64, f: Fun, sig: &[u8], b: Buf) -> Res {
    match f {
        Fun::Enc => with_buf(b, &mut |o, ol| lib!(fn_encrypt_final(sh, o, ol))),
        Fun::Dec => with_buf(b, &mut |o, ol| lib!(fn_decrypt_final(sh, o, ol))),
        Fun::Dig => with_buf(b, &mut |o, ol| lib!(fn_digest_final(sh, o, ol))),
        Fun::Sig => with_buf(b, &mut |o, ol| lib!(fn_sign_final(sh, o, ol))),
        Fun::Ver => {
            let mut g = sig.to_vec();
            rv(lib!(fn_verify_final(sh, full_ptr(&mut g), g.len() as CK_ULONG)))
        }
    }
}

pub fn dual_rv(k: u8, sh: u64, p: *mut u8, l: CK_ULONG, o: *mut u8, ol: *mut CK_ULONG) -> CK_RV {
    match k {
        0 => fn_digest_encrypt_update(sh, p, l, o, ol),
        1 => fn_decrypt_digest_update(sh, p, l, o, ol),
        2 => fn_sign_encrypt_update(sh, p, l, o, ol),
        _ => fn_decrypt_verify_update(sh, p, l, o, ol),
    }
}

fn dual(sh: u64, k: u8, d: &[u8], b: Buf) -> Res {
    let mut d = d.to_vec();
    let (p, l) = (full_ptr(&mut d), d.len() as CK_ULONG);
    with_buf(b, &mut |o, ol| match k {
        0 => lib!(fn_digest_encrypt_update(sh, p, l, o, ol)),
        1 => lib!(fn_decrypt_digest_update(sh, p, l, o, ol)),
        2 => lib!(fn_sign_encrypt_update(sh, p, l, o, ol)),
        _ => lib!(fn_decrypt_verify_update(sh, p, l, o, ol)),
    })
}

fn one(sh: u64, f: Fun, d: &[u8], sig: &[u8], b: Buf) -> Res {
    let mut d = d.to_vec();
    let (p, l) = (full_ptr(&mut d), d.len() as CK_ULONG);
    match f {
        Fun::Enc => with_buf(b, &mut |o, ol| lib!(fn_encrypt(sh, p, l, o, ol))),
        Fun::Dec => with_buf(b, &mut |o, ol| lib!(fn_decrypt(sh, p, l, o, ol))),
        Fun::Dig => with_buf(b, &mut |o, ol| lib!(fn_digest(sh, p, l, o, ol))),
        Fun::Sig => with_buf(b, &mut |o, ol| lib!(fn_sign(sh, p, l, o, ol))),
        Fun::Ver => {
            let mut g = sig.to_vec();
            rv(lib!(fn_verify(sh, p, l, full_ptr(&mut g), g.len() as CK_ULONG)))
        }
    }
}

fn ul(v: &[(u64, Option<Hx>)], t: u64) -> Option<u64> {
    let b = v.iter().find(|x| x.0 == t)?.1.as_ref()?;
    Some(u64::from_ne_bytes(b.0.clone().try_into().ok()?))
}

/// a deterministic function of the secret of the object
fn probe(sh: u64, h: u64) -> Res {
    let (x, v) = get_attrs(sh, h, &[CKA_CLASS, CKA_KEY_TYPE]);
    let (cl, kt) = (ul(&v, CKA_CLASS), ul(&v, CKA_KEY_TYPE));
    let Some(cl) = cl else { return rv(x) };
    let mut m = CK_MECHANISM {
        mechanism: 0,
        pParameter: null_mut(),
        ulParameterLen: 0,
    };
    let mut d = *b"kryoptic probe..";
    let mut buf = [0u8; 1024];
    let mut l: CK_ULONG = 1024;
    let ok = CKR_OK as u64;
    let kt = kt.unwrap_or(u64::MAX);
    if cl == CKO_SECRET_KEY && kt == CKK_AES {
        m.mechanism = CKM_AES_ECB;
        let mut x = lib!(fn_encrypt_init(sh, &mut m, h));
        if x == CKR_OPERATION_ACTIVE as u64 {
            // an operation of the client is in the way
            lib!(fn_session_cancel(sh, CKF_ENCRYPT));
            x = lib!(fn_encrypt_init(sh, &mut m, h));
        }
        if x != ok {
            return rv(x);
        }
        let mut r = rv(lib!(fn_encrypt(sh, d.as_mut_ptr(), 16, buf.as_mut_ptr(), &mut l)));
        if r.rv == ok {
            r.out = Some(Hx(buf[..(l as usize).min(1024)].to_vec()));
        }
        return r;
    }
    if cl == CKO_SECRET_KEY || cl == CKO_PRIVATE_KEY {
        m.mechanism = match (cl, kt) {
            (CKO_SECRET_KEY, _) => CKM_SHA256_HMAC,
            (_, CKK_RSA) => CKM_SHA256_RSA_PKCS,
            _ => return rv(SKIP),
        };
        let mut x = lib!(fn_sign_init(sh, &mut m, h));
        if x == CKR_OPERATION_ACTIVE as u64 {
            lib!(fn_session_cancel(sh, CKF_SIGN));
            x = lib!(fn_sign_init(sh, &mut m, h));
        }
        if x != ok {
            return rv(x);
        }
        let mut r = rv(lib!(fn_sign(sh, d.as_mut_ptr(), 16, buf.as_mut_ptr(), &mut l)));
        if r.rv == ok {
            r.out = Some(Hx(buf[..(l as usize).min(1024)].to_vec()));
        }
        return r;
    }
    rv(SKIP)
}

/// calls with unusual but valid arguments, for the no-abort property
fn odd(sh: u64, oh: u64, k: u32) -> Res {
    let mut buf = vec![0u8; 4096];
    let p = buf.as_mut_ptr();
    let mut l: CK_ULONG = 4096;
    let mut h: CK_OBJECT_HANDLE = 0;
    let mut m = CK_MECHANISM {
        mechanism: CKM_AES_CBC,
        pParameter: null_mut(),
        ulParameterLen: 0,
    };
    let n = null_mut::<u8>();
    let x = match k {
        0 => lib!(fn_digest_encrypt_update(sh, p, 16, p, &mut l)),
        1 => lib!(fn_decrypt_digest_update(sh, p, 16, p, &mut l)),
        2 => lib!(fn_sign_encrypt_update(sh, p, 16, p, &mut l)),
        3 => lib!(fn_decrypt_verify_update(sh, p, 16, p, &mut l)),
        4 => lib!(fns::fn_seed_random(sh, n, 0)),
        5 => lib!(fns::fn_generate_random(sh, n, 0)),
        6 => lib!(fn_set_operation_state(sh, n, 0, 0, 0)),
        7 => lib!(fn_get_operation_state(sh, null_mut(), null_mut())),
        8 => lib!(fn_find_objects(sh, &mut h, 0, &mut l)),
        9 => lib!(fn_create_object(sh, null_mut(), 0, &mut h)),
        10 => lib!(fn_set_attribute_value(sh, oh, null_mut(), 0)),
        11 => lib!(fn_get_attribute_value(sh, oh, null_mut(), 0)),
        12 => lib!(fn_login(sh, CKU_USER, n, 0)),
        13 => lib!(fn_login(sh, CKU_CONTEXT_SPECIFIC, n, 0)),
        14 => lib!(fn_login(sh, 77, p, 4)),
        15 => lib!(fn_init_pin(sh, n, 0)),
        16 => lib!(fn_set_pin(sh, n, 0, n, 0)),
        17 => lib!(fn_encrypt_init(sh, &mut m, oh)),
        18 => {
            m.mechanism = 0xffff_ffff;
            lib!(fn_sign_init(sh, &mut m, oh))
        }
        19 => {
            m.mechanism = CKM_AES_GCM;
            m.pParameter = p as *mut c_void;
            m.ulParameterLen = 3;
            lib!(fn_encrypt_init(sh, &mut m, oh))
        }
        20 => lib!(fn_sign(sh, n, 0, p, &mut l)),
        21 => lib!(fn_verify(sh, n, 0, p, 3)),
        22 => lib!(fn_encrypt(sh, n, 0, p, &mut l)),
        23 => lib!(fn_decrypt(sh, n, 0, p, &mut l)),
        24 => lib!(fn_digest(sh, n, 0, p, &mut l)),
        25 => lib!(fn_generate_key(sh, &mut m, null_mut(), 0, &mut h)),
        26 => lib!(fn_session_cancel(sh, u64::MAX)),
        27 => {
            let mut a = CK_ATTRIBUTE {
                type_: CKA_LABEL,
                pValue: null_mut(),
                ulValueLen: 5,
            };
            lib!(fn_get_attribute_value(sh, oh, &mut a, 1))
        }
        28 => {
            let mut a = CK_ATTRIBUTE {
                type_: CKA_TOKEN,
                pValue: p as *mut c_void,
                ulValueLen: 0,
            };
            lib!(fn_find_objects_init(sh, &mut a, 1))
        }
        29 => {
            let mut a = CK_ATTRIBUTE {
                type_: CKA_CLASS,
                pValue: p as *mut c_void,
                ulValueLen: 3,
            };
            lib!(fn_find_objects_init(sh, &mut a, 1))
        }
        30 => {
            let mut a = CK_ATTRIBUTE {
                type_: CKA_CLASS,
                pValue: p as *mut c_void,
                ulValueLen: 3,
            };
            lib!(fn_create_object(sh, &mut a, 1, &mut h))
        }
        31 => {
            m.mechanism = CKM_SHA256_HMAC_GENERAL;
            let z: CK_ULONG = 0;
            m.pParameter = &z as *const _ as *mut c_void;
            m.ulParameterLen = 8;
            lib!(fn_sign_init(sh, &mut m, oh))
        }
        32 => lib!(fn_derive_key(sh, &mut m, oh, null_mut(), 0, &mut h)),
        33 => lib!(fn_wrap_key(sh, &mut m, oh, oh, p, &mut l)),
        34 => lib!(fn_unwrap_key(sh, &mut m, oh, p, 0, null_mut(), 0, &mut h)),
        35 => lib!(fn_digest_key(sh, oh)),
        36 => lib!(fn_set_operation_state(sh, p, 1, 0, oh)),
        37 => lib!(fn_copy_object(sh, oh, null_mut(), 0, &mut h)),
        38 => lib!(fn_get_object_size(sh, oh, &mut l)),
        39 => {
            m.mechanism = CKM_AES_CTR;
            m.pParameter = p as *mut c_void;
            m.ulParameterLen = 24;
            lib!(fn_encrypt_init(sh, &mut m, oh))
        }
        40 => lib!(fn_encrypt_update(sh, n, 0, p, &mut l)),
        41 => lib!(fn_decrypt_update(sh, n, 0, p, &mut l)),
        42 => lib!(fn_message_encrypt_final(sh)),
        43 => lib!(fn_message_decrypt_final(sh)),
        44 => lib!(fn_encrypt_final(sh, p, &mut l)),
        45 => lib!(fn_decrypt_final(sh, p, &mut l)),
        46 => lib!(fn_digest_final(sh, p, &mut l)),
        47 => lib!(fn_verify_final(sh, p, 0)),
        48 => lib!(fn_sign_update(sh, n, 0)),
        49 => lib!(fn_verify_update(sh, n, 0)),
        50 => lib!(fn_digest_update(sh, n, 0)),
        _ => lib!(fn_get_session_info(sh, null_mut())),
    };
    rv(x)
}
pub const NODD: u32 = 52;
