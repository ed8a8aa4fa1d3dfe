//! P08: key values and PINs on the disk.
use super::conc::C::*;
use super::conc::*;
use super::*;
use kryoptic_lib::pkcs11::*;

/// key values that only came to light when they were read
fn late(p: &Plan, out: &RunOut) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for i in &out.incs {
        for e in &i.ev {
            let Ev::Ret { r, .. } = e else { continue };
            for (_, _, a) in &r.objs {
                let get = |t| a.iter().find(|x| x.0 == t).and_then(|x| x.1.as_ref()).map(|h| h.0.clone());
                let class = get(CKA_CLASS).and_then(|b| Some(u64::from_ne_bytes(b.try_into().ok()?)));
                if !matches!(class, Some(CKO_SECRET_KEY | CKO_PRIVATE_KEY | CKO_OTP_KEY)) || get(CKA_TOKEN) != Some(vec![1]) {
                    continue;
                }
                for t in [CKA_VALUE, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_COEFFICIENT] {
                    if let Some(b) = get(t).filter(|b| b.len() >= 16) {
                        let l = String::from_utf8_lossy(&get(CKA_LABEL).unwrap_or_default()).to_string();
                        v.push((format!("attribute 0x{t:x} of {l}"), b[..16].to_vec()));
                        v.push((format!("attribute 0x{t:x} of {l}"), b[b.len() - 16..].to_vec()));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    // what the callers stored in the clear themselves
    let open: Vec<Vec<u8>> = p
        .ops()
        .values()
        .filter_map(|o| match &o.op {
            Op::Create { t, .. } if crate::model::tget(t, CKA_CLASS) == Some(CKO_DATA.to_ne_bytes().to_vec()) => crate::model::tget(t, CKA_VALUE),
            _ => None,
        })
        .collect();
    v.retain(|x| !open.iter().any(|o| crate::simfs::find(o, &x.1)));
    v
}

fn judge_leak(p: &Plan, out: &RunOut, st: &mut JStats) -> Vec<Viol> {
    if let Some(v) = ends(out) {
        return vec![v];
    }
    let bad = |d: String| vec![Viol { sig: "value-on-disk".into(), detail: d }];
    for (k, i) in out.incs.iter().enumerate() {
        if let Some(l) = i.meta.leaks.first() {
            return bad(format!("incarnation {k}: {l}"));
        }
    }
    let l = late(p, out);
    st.nontrivial = !p.secrets.is_empty();
    for (k, img) in out.images.iter().enumerate() {
        for (f, b) in img {
            for (w, v) in &l {
                if crate::simfs::find(b, v) {
                    return bad(format!("after incarnation {k}: {w} is in clear in {f}"));
                }
            }
        }
    }
    vec![]
}

fn prep(g: &mut G) {
    g.keep_secrets = true;
    g.private_pct = 50;
    g.pairs = true;
    g.kinds = vec![K::Aes, K::Gen, K::RsaPriv, K::EcImp, K::Otp];
    if g.p.image == "nss" {
        g.kinds.pop();
    }
}

/// the PINs of the plan are secrets too
fn pins(g: &mut G) {
    let mut v: Vec<String> = vec![];
    for o in g.p.ops().values() {
        match &o.op {
            Op::Login { pin, .. } | Op::InitToken { pin, .. } | Op::InitPin { pin, .. } => v.push(pin.clone()),
            Op::SetPin { old, new, .. } => {
                v.push(old.clone());
                v.push(new.clone());
            }
            _ => {}
        }
    }
    v.sort();
    v.dedup();
    for x in v {
        if x.len() >= 8 {
            g.p.secrets.push(("a PIN".into(), Hx(x.as_bytes()[..x.len().min(16)].to_vec())));
        }
    }
}

fn store(g: &mut G, conf: &str, crash: u64, io: u64) {
    g.p.image = conf.into();
    prep(g);
    let k = std::mem::take(&mut g.kinds);
    obj::storage_of(g, conf, 1, &W { genpair: 3, ..WCHANGE }, crash, io, 20, k);
    pins(g);
}

const KEYS: CW = &[(Obj, 24), (Wrap, 8), (Derive, 8), (Use, 3), (Login, 1), (Logout, 1), (Close, 1), (OpenRw, 1)];

pub fn p08() -> Vec<Scen> {
    vec![
        Scen { name: "store", weight: 4, gen_: |g| store(g, "sq", 50, 50), judge: judge_leak },
        Scen { name: "store-nss", weight: 4, gen_: |g| store(g, "nss", 50, 50), judge: judge_leak },
        Scen {
            name: "keys",
            weight: 3,
            gen_: |g| {
                concurrent(g, &Cc { w: KEYS, ow: W { get: 2, set: 8, copy: 10, ..WOBJ }, knobs: |g| { prep(g); g.usage = true; g.hide = 20; }, pre: 10, post: 10, ops: 4, token_pct: 60, io: 30, ..CC });
                pins(g);
            },
            judge: judge_leak,
        },
        Scen {
            name: "pins",
            weight: 2,
            gen_: |g| {
                let conf = if g.pct(60) { "sq" } else { "nss" };
                g.keep_secrets = true;
                super::pins::change(g, conf, 40, 40, 10);
                pins(g);
            },
            judge: judge_leak,
        },
        Scen {
            name: "replace",
            weight: 1,
            gen_: |g| {
                g.keep_secrets = true;
                super::dedup::leak(g);
                pins(g);
            },
            judge: judge_leak,
        },
        Scen {
            name: "init",
            weight: 2,
            gen_: |g| {
                g.keep_secrets = true;
                prep(g);
                super::pins::init_token(g, "sq", "sq", 40, 40);
                pins(g);
            },
            judge: judge_leak,
        },
    ]
}
