//! Changes made to the stored bytes while the library is down.
use crate::plan::*;
use crate::rng::Rng;
use crate::{child, simfs};
use kryoptic_lib::pkcs11::*;
use rusqlite::Connection;

/// stored byte-string attributes that hold encrypted values: (objid, attr, blob)
fn blobs(c: &Connection) -> Vec<(i64, i64, Vec<u8>)> {
    let mut v = Vec::new();
    if let Ok(mut st) = c.prepare("SELECT id, attr, val FROM objects ORDER BY id, attr") {
        let r = st.query_map([], |r| {
            Ok((
                r.get::<_, i64>(0)?,
                r.get::<_, i64>(1)?,
                r.get_ref(2)?.as_blob().map(|b| b.to_vec()).unwrap_or_default(),
            ))
        });
        if let Ok(rows) = r {
            for x in rows.flatten() {
                if x.2.len() > 60 && x.2[0] == 0x30 {
                    v.push(x);
                }
            }
        }
    }
    v
}

/// attributes that older versions of the NSS database format do not have
const NEW_COLS: [u64; 15] = [
    0x4, 0x129, 0x601, 0x61d, 0x61e, 0x621, 0x62a, 0x62b, 0x62c, 0x62e, 0x633, 0x634, 0x635, 0x636,
    0x637,
];

/// one DER element: header length, content length
fn tlv(b: &[u8]) -> Option<(usize, usize)> {
    let l = *b.get(1)? as usize;
    let (h, n) = match l {
        0..=127 => (2, l),
        0x81 => (3, *b.get(2)? as usize),
        0x82 => (4, (*b.get(2)? as usize) << 8 | *b.get(3)? as usize),
        _ => return None,
    };
    (h + n <= b.len()).then_some((h, n))
}

fn leaves(b: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        let Some((h, l)) = tlv(&b[i..]) else { return n };
        n += if b[i] & 0x20 != 0 { leaves(&b[i + h..i + h + l]) } else { 1 };
        i += h + l;
    }
    n
}

/// b with its kth leaf replaced by what f makes of it, all lengths put right
fn rewrite(b: &[u8], k: &mut usize, f: &mut dyn FnMut(u8, &[u8]) -> Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let Some((h, l)) = tlv(&b[i..]) else {
            o.extend_from_slice(&b[i..]);
            break;
        };
        let c = &b[i + h..i + h + l];
        let c = if b[i] & 0x20 != 0 {
            rewrite(c, k, f)
        } else {
            let hit = *k == 0;
            *k = k.wrapping_sub(1);
            if hit { f(b[i], c) } else { c.to_vec() }
        };
        o.push(b[i]);
        match c.len() {
            0..=127 => o.push(c.len() as u8),
            128..=255 => o.extend_from_slice(&[0x81, c.len() as u8]),
            _ => o.extend_from_slice(&[0x82, (c.len() >> 8) as u8, c.len() as u8]),
        }
        o.extend_from_slice(&c);
        i += h + l;
    }
    o
}

/// a damaged element in an otherwise well-formed structure
fn restructure(b: &mut Vec<u8>, r: &mut Rng) {
    let n = leaves(b);
    if n == 0 {
        return;
    }
    // the last ones are ciphertext, tag and IV
    let mut k = if r.below(3) == 0 { n - 1 } else { r.idx(n) };
    let how = r.below(6);
    let (x, y) = (r.next(), r.next());
    *b = rewrite(b, &mut k, &mut |t, c| {
        let mut c = c.to_vec();
        if c.is_empty() {
            return vec![0];
        }
        let z = c.len();
        if t == 2 {
            // numbers stay small: iteration counts
            c[z - 1] ^= 1 << (x % 6);
            return c;
        }
        match how {
            0 => c.truncate((x % z as u64) as usize),
            1 => c.push(x as u8),
            2 => c.fill(0),
            3 => c.clear(),
            4 if z > 16 => {
                c.drain(..16);
            }
            _ => c[(x % z as u64) as usize] ^= 1 << (y % 8),
        }
        c
    });
}

fn mutate(b: &mut Vec<u8>, r: &mut Rng) -> &'static str {
    if b.is_empty() {
        b.push(r.below(256) as u8);
        return "extended";
    }
    if r.below(2) == 0 {
        restructure(b, r);
        return "element damaged";
    }
    match r.below(8) {
        0 => {
            let n = r.idx(b.len());
            b.truncate(n);
            "truncated"
        }
        1 => {
            b.push(r.below(256) as u8);
            "extended"
        }
        2 => {
            // within the last bytes: the ciphertext itself
            let n = b.len();
            let i = n - 1 - r.idx(n.min(16));
            b[i] ^= 1 << r.idx(8);
            "bit flip near the end"
        }
        3 => {
            let i = r.idx(b.len());
            b[i] = 0;
            "byte zeroed"
        }
        _ => {
            let i = r.idx(b.len());
            b[i] ^= 1 << r.idx(8);
            "bit flip"
        }
    }
}

fn label(c: &Connection, id: i64) -> String {
    c.query_row("SELECT val FROM objects WHERE id=?1 AND attr=3", [id], |r| {
        Ok(String::from_utf8_lossy(r.get_ref(0)?.as_bytes().unwrap_or_default()).to_string())
    })
    .unwrap_or_default()
}

/// NSS: an authenticated attribute, its signature or both
fn nss(dir: &str, r: &mut Rng) {
    let (db, table, kind) = if r.below(2) == 0 { ("cert9.db", "nssPublic", "cert") } else { ("key4.db", "nssPrivate", "key") };
    let Ok(c) = Connection::open(format!("{dir}/{db}")) else { return };
    // attributes with a signature
    const SIGNED: [u64; 11] = [
        CKA_MODULUS,
        CKA_PUBLIC_EXPONENT,
        CKA_HASH_OF_CERTIFICATE,
        CKA_NAME_HASH_ALGORITHM,
        CKA_TRUST_SERVER_AUTH,
        CKA_TRUST_CLIENT_AUTH,
        CKA_TRUST_CODE_SIGNING,
        CKA_TRUST_EMAIL_PROTECTION,
        CKA_TRUST_IPSEC_IKE,
        CKA_TRUST_TIME_STAMPING,
        CKA_TRUST_OCSP_SIGNING,
    ];
    let mut there: Vec<u64> = vec![];
    for a in SIGNED {
        let n: i64 = c.query_row(&format!("SELECT COUNT(*) FROM {table} WHERE a{a:x} IS NOT NULL"), [], |x| x.get(0)).unwrap_or(0);
        if n > 0 {
            there.push(a);
        }
    }
    if there.is_empty() {
        return;
    }
    let attr = *r.pick(&there);
    let col = &format!("a{attr:x}");
    let rows: Vec<(i64, Vec<u8>, String)> = match c.prepare(&format!("SELECT id, {col}, a3 FROM {table} WHERE {col} IS NOT NULL ORDER BY id")) {
        Ok(mut st) => match st.query_map([], |r| {
            Ok((
                r.get::<_, i64>(0)?,
                r.get_ref(1)?.as_bytes().unwrap_or_default().to_vec(),
                String::from_utf8_lossy(r.get_ref(2)?.as_bytes().unwrap_or_default()).to_string(),
            ))
        }) {
            Ok(x) => x.flatten().collect(),
            Err(_) => return,
        },
        Err(_) => return,
    };
    if rows.is_empty() {
        return;
    }
    let (id, val, lab) = &rows[r.idx(rows.len())];
    let mut what = String::new();
    if r.below(4) == 0 {
        // value and signature of another object, or of another attribute
        let Ok(k) = Connection::open(format!("{dir}/key4.db")) else { return };
        let sig = |id: i64, a: u64| -> Option<Vec<u8>> {
            k.query_row("SELECT item1 FROM metaData WHERE id=?1", [format!("sig_{kind}_{id:08x}_{a:08x}")], |r| r.get(0)).ok()
        };
        let (from, a2, v2) = if r.below(2) == 0 {
            let (i, v, _) = &rows[r.idx(rows.len())];
            (*i, attr, v.clone())
        } else {
            let a2 = *r.pick(&there);
            let v: Option<Vec<u8>> = c
                .query_row(&format!("SELECT a{a2:x} FROM {table} WHERE id=?1"), [id], |x| Ok(x.get_ref(0)?.as_bytes().unwrap_or_default().to_vec()))
                .ok();
            (*id, a2, v.unwrap_or_default())
        };
        let (Some(s1), Some(s2)) = (sig(*id, attr), sig(from, a2)) else { return };
        if v2 != *val && !v2.is_empty() && s1 != s2 {
            let ok = c.execute(&format!("UPDATE {table} SET {col}=?1 WHERE id=?2"), rusqlite::params![v2, id]).is_ok();
            if ok && k.execute("UPDATE metaData SET item1=?1 WHERE id=?2", rusqlite::params![s2, format!("sig_{kind}_{id:08x}_{attr:08x}")]).is_ok() {
                child::note(format!("tamper blob [{lab}] 0x{attr:x}: exchanged"));
            }
        }
        return;
    }
    let how = r.below(4);
    if how != 0 && !val.is_empty() {
        let mut v = val.clone();
        let i = r.idx(v.len());
        v[i] ^= 1 << r.idx(8);
        if c.execute(&format!("UPDATE {table} SET {col}=?1 WHERE id=?2"), rusqlite::params![v, id]).is_ok() {
            what += " value";
        }
    }
    if how != 1 {
        let Ok(k) = Connection::open(format!("{dir}/key4.db")) else { return };
        let name = format!("sig_{kind}_{id:08x}_{attr:08x}");
        let old: Option<Vec<u8>> = k.query_row("SELECT item1 FROM metaData WHERE id=?1", [&name], |r| r.get(0)).ok();
        if let Some(old) = old {
            let mut b = old.clone();
            if r.below(4) == 0 {
                // as short as a signature can be
                let mut n = leaves(&b).wrapping_sub(1);
                let len = r.idx(3);
                b = rewrite(&b, &mut n, &mut |_, c| c[..len.min(c.len())].to_vec());
            } else {
                mutate(&mut b, r);
            }
            if b != old && k.execute("UPDATE metaData SET item1=?1 WHERE id=?2", rusqlite::params![b, name]).is_ok() {
                what += " signature";
            }
        }
    }
    if !what.is_empty() {
        child::note(format!("tamper blob [{lab}] 0x{attr:x}:{what}"));
    }
}

/// the byte strings among the leaves
fn strings(b: &[u8], v: &mut Vec<Vec<u8>>) {
    let mut i = 0;
    while i < b.len() {
        let Some((h, l)) = tlv(&b[i..]) else { return };
        let c = &b[i + h..i + h + l];
        if b[i] & 0x20 != 0 {
            strings(c, v);
        } else if b[i] == 4 {
            v.push(c.to_vec());
        }
        i += h + l;
    }
}

/// What went into the key (salt or object id) and the IV on the one side, the
/// ciphertext on the other.
fn scan_blob(what: &str, b: &[u8]) {
    if tlv(b).is_none_or(|(h, n)| h + n != b.len()) {
        return;
    }
    let mut v = vec![];
    strings(b, &mut v);
    let Some(ct) = v.pop() else { return };
    // the tag of the native format depends on the data
    v.retain(|x| x.len() != 8);
    let ctx: Vec<String> = v.iter().map(|x| hex(x)).collect();
    child::note(format!("at rest {} {} {what}", ctx.join("/"), hex(&crate::hash::sha256(&ct)[..8])));
}

/// Looks at a copy: a journal left by a crash stays for the library.
fn scan() {
    let img = simfs::image_live();
    for f in img.keys() {
        if f.ends_with(".sql") {
            let Ok(c) = Connection::open(f) else { continue };
            for (id, attr, b) in blobs(&c) {
                scan_blob(&format!("object {id} attribute 0x{attr:x}"), &b);
            }
            if let Ok(mut st) = c.prepare("SELECT value, data FROM meta WHERE name='USER DATA' ORDER BY value") {
                if let Ok(rows) = st.query_map([], |r| Ok((r.get::<_, String>(0)?, r.get::<_, Vec<u8>>(1)?))) {
                    for (who, b) in rows.flatten() {
                        scan_blob(&format!("user {who}"), &b);
                    }
                }
            }
        } else if f.ends_with("key4.db") {
            let Ok(c) = Connection::open(f) else { continue };
            let Ok(mut st) = c.prepare("SELECT * FROM nssPrivate ORDER BY id") else { continue };
            let cols: Vec<String> = st.column_names().iter().map(|s| s.to_string()).collect();
            let rows = st.query_map([], |r| {
                Ok((0..cols.len())
                    .map(|i| r.get_ref(i).ok().and_then(|x| x.as_blob().ok()).unwrap_or_default().to_vec())
                    .collect::<Vec<_>>())
            });
            if let Ok(rows) = rows {
                for row in rows.flatten() {
                    for (i, b) in row.iter().enumerate() {
                        if b.len() > 60 && b[0] == 0x30 {
                            scan_blob(&format!("column {}", cols[i]), b);
                        }
                    }
                }
            }
            if let Ok(mut st) = c.prepare("SELECT id, item1 FROM metaData WHERE id LIKE 'sig_%' ORDER BY id") {
                if let Ok(rows) = st.query_map([], |r| Ok((r.get::<_, String>(0)?, r.get::<_, Vec<u8>>(1)?))) {
                    for (who, b) in rows.flatten() {
                        scan_blob(&who, &b);
                    }
                }
            }
            if let Ok(b) = c.query_row("SELECT item2 FROM metaData WHERE id='password'", [], |r| r.get::<_, Vec<u8>>(0)) {
                scan_blob("password entry", &b);
            }
        }
    }
    simfs::load(&img);
}

pub fn apply(t: &Tamper) {
    match t {
        Tamper::Scan => scan(),
        Tamper::Blob { db, seed } => {
            let mut r = Rng::new(*seed);
            let Ok(c) = Connection::open(db) else { return };
            let v = blobs(&c);
            if v.is_empty() {
                return;
            }
            let (id, attr, old) = &v[r.idx(v.len())];
            let mut b = old.clone();
            let what = mutate(&mut b, &mut r);
            if b == *old {
                return;
            }
            if c.execute(
                "UPDATE objects SET val=?1 WHERE id=?2 AND attr=?3",
                rusqlite::params![b, id, attr],
            )
            .is_ok()
            {
                child::note(format!("tamper blob [{}] 0x{attr:x}: {what}", label(&c, *id)));
            }
        }
        Tamper::User { db, who, seed } => {
            let mut r = Rng::new(*seed);
            let Ok(c) = Connection::open(db) else { return };
            let old: Option<Vec<u8>> = c
                .query_row(
                    "SELECT data FROM meta WHERE name='USER DATA' AND value=?1",
                    [who],
                    |r| r.get(0),
                )
                .ok();
            let Some(old) = old else { return };
            let mut b = old.clone();
            let what = mutate(&mut b, &mut r);
            if b != old
                && c.execute(
                    "UPDATE meta SET data=?1 WHERE name='USER DATA' AND value=?2",
                    rusqlite::params![b, who],
                )
                .is_ok()
            {
                child::note(format!("tamper user {who}: {what}"));
            }
        }
        Tamper::Users { db } => {
            let Ok(c) = Connection::open(db) else { return };
            let q = "UPDATE meta SET value = CASE value WHEN 'SO' THEN 'USER' ELSE 'SO' END WHERE name='USER DATA'";
            if matches!(c.execute(q, []), Ok(2)) {
                child::note("tamper user both".into());
            }
        }
        Tamper::Pass { dir, seed } => {
            let mut r = Rng::new(*seed);
            let Ok(c) = Connection::open(format!("{dir}/key4.db")) else { return };
            let Ok((a, b)) = c.query_row("SELECT item1, item2 FROM metaData WHERE id='password'", [], |r| {
                Ok((r.get::<_, Vec<u8>>(0)?, r.get::<_, Vec<u8>>(1)?))
            }) else { return };
            let (mut x, mut y) = (a.clone(), b.clone());
            if r.below(3) == 0 {
                mutate(&mut x, &mut r);
            } else {
                mutate(&mut y, &mut r);
            }
            if (x != a || y != b) && c.execute("UPDATE metaData SET item1=?1, item2=?2 WHERE id='password'", rusqlite::params![x, y]).is_ok() {
                child::note("tamper user USER: password entry".into());
            }
        }
        Tamper::Nss { dir, seed } => nss(dir, &mut Rng::new(*seed)),
        Tamper::Swap { db, seed } => {
            let mut r = Rng::new(*seed);
            let Ok(c) = Connection::open(db) else { return };
            let v = blobs(&c);
            if v.len() < 2 {
                return;
            }
            let a = &v[r.idx(v.len())];
            let near = r.below(3) == 0;
            let rest: Vec<_> = v
                .iter()
                .filter(|x| x.2 != a.2 && (!near || x.0 == a.0))
                .collect();
            if rest.is_empty() {
                return;
            }
            let b = rest[r.idx(rest.len())];
            // both, or one copied over the other
            let both = r.below(2) == 0;
            let mut put = vec![(a, &b.2)];
            if both {
                put.push((b, &a.2));
            }
            for (x, val) in put {
                let _ = c.execute(
                    "UPDATE objects SET val=?1 WHERE id=?2 AND attr=?3",
                    rusqlite::params![val, x.0, x.1],
                );
            }
            let how = if a.0 == b.0 { "within" } else { "between" };
            child::note(format!("tamper move {how} [{}] 0x{:x}", label(&c, a.0), a.1));
            if both {
                child::note(format!("tamper move {how} [{}] 0x{:x}", label(&c, b.0), b.1));
            }
        }
        Tamper::Old { dir, seed } => {
            let mut r = Rng::new(*seed);
            let pick = |r: &mut Rng| -> Vec<u64> {
                let n = r.idx(NEW_COLS.len() + 1);
                (0..n).map(|_| NEW_COLS[r.idx(NEW_COLS.len())]).collect()
            };
            let (a, b) = (pick(&mut r), pick(&mut r));
            let same = r.below(3) != 0;
            for (f, t, cols) in [("cert9.db", "nssPublic", &a), ("key4.db", "nssPrivate", if same { &a } else { &b })] {
                let Ok(c) = Connection::open(format!("{dir}/{f}")) else { return };
                let mut n = 0;
                for x in cols {
                    let used: i64 = c
                        .query_row(&format!("SELECT COUNT(a{x:x}) FROM {t}"), [], |r| r.get(0))
                        .unwrap_or(1);
                    if used == 0 && c.execute(&format!("ALTER TABLE {t} DROP COLUMN a{x:x}"), []).is_ok() {
                        n += 1;
                    }
                }
                child::note(format!("tamper old {f}: {n} columns removed"));
            }
        }
        Tamper::Sql { db, q } => {
            let Ok(c) = Connection::open(db) else { return };
            match c.execute_batch(q) {
                Ok(()) => child::note(format!("tamper sql {q}")),
                Err(e) => child::note(format!("tamper failed {e}")),
            }
        }
        Tamper::Raw { file, seed, n } => {
            let mut r = Rng::new(*seed);
            let mut img = simfs::image_live();
            if let Some(b) = img.get_mut(file) {
                if b.is_empty() {
                    return;
                }
                for _ in 0..*n {
                    let i = r.idx(b.len());
                    b[i] ^= 1 << r.idx(8);
                }
                simfs::load(&img);
                child::note(format!("tamper raw {file}"));
            }
        }
        Tamper::Cut { file, seed } => {
            let mut r = Rng::new(*seed);
            let mut img = simfs::image_live();
            if let Some(b) = img.get_mut(file) {
                let n = r.idx(b.len() + 1);
                b.truncate(n);
                simfs::load(&img);
                child::note(format!("tamper cut {file} to {n}"));
            }
        }
    }
}
