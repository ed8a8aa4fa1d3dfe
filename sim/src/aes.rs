//! AES with the modes the judges need, written from the standards (FIPS 197,
//! SP 800-38C and D): slow and independent of the library.

pub struct Aes {
    rk: Vec<[u8; 16]>,
}

fn xt(a: u8) -> u8 {
    a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut t = [0u8; 256];
        for (x, o) in t.iter_mut().enumerate() {
            let inv = (1..=255u8).find(|y| mul(x as u8, *y) == 1).unwrap_or(0);
            *o = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        t
    })
}

impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let s = sbox();
        let nk = key.len() / 4;
        let n = 4 * (nk + 7);
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..n {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|x| s[x as usize]);
            }
            let p = w[i - nk];
            w.push([0, 1, 2, 3].map(|j| p[j] ^ t[j]));
        }
        Aes { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn block(&self, b: [u8; 16]) -> [u8; 16] {
        let s = sbox();
        let n = self.rk.len() - 1;
        let mut b = x16(b, self.rk[0]);
        for r in 1..=n {
            let mut t = [0u8; 16];
            for i in 0..16 {
                t[i] = s[b[(i + 4 * (i % 4)) % 16] as usize];
            }
            if r < n {
                for c in t.chunks_mut(4) {
                    let o = [c[0], c[1], c[2], c[3]];
                    for i in 0..4 {
                        c[i] = xt(o[i]) ^ xt(o[(i + 1) % 4]) ^ o[(i + 1) % 4] ^ o[(i + 2) % 4] ^ o[(i + 3) % 4];
                    }
                }
            }
            b = x16(t, self.rk[r]);
        }
        b
    }
}

fn x16(a: [u8; 16], b: [u8; 16]) -> [u8; 16] {
    std::array::from_fn(|i| a[i] ^ b[i])
}
fn pad(b: &[u8]) -> [u8; 16] {
    std::array::from_fn(|i| b.get(i).copied().unwrap_or(0))
}

fn gmul(x: u128, y: u128) -> u128 {
    let mut z = 0;
    let mut v = y;
    for i in 0..128 {
        if x >> (127 - i) & 1 != 0 {
            z ^= v;
        }
        v = v >> 1 ^ if v & 1 != 0 { 0xe1 << 120 } else { 0 };
    }
    z
}

/// ciphertext and 16 byte tag
pub fn gcm(key: &[u8], iv: &[u8], aad: &[u8], d: &[u8], dec: bool) -> (Vec<u8>, [u8; 16]) {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.block([0; 16]));
    let hash = |parts: &[&[u8]], lens: u128| {
        let mut y = 0u128;
        for p in parts {
            for c in p.chunks(16) {
                y = gmul(y ^ u128::from_be_bytes(pad(c)), h);
            }
        }
        gmul(y ^ lens, h)
    };
    let j0 = if iv.len() == 12 {
        u128::from_be_bytes(pad(iv)) | 1
    } else {
        hash(&[iv], iv.len() as u128 * 8)
    };
    let ctr = |i: u32| {
        let c = (j0 as u32).wrapping_add(i);
        a.block((j0 >> 32 << 32 | c as u128).to_be_bytes())
    };
    let mut o = vec![];
    for (i, c) in d.chunks(16).enumerate() {
        let k = ctr(i as u32 + 1);
        o.extend(c.iter().zip(k).map(|(x, y)| x ^ y));
    }
    let ct: &[u8] = if dec { d } else { &o };
    let s = hash(&[aad, ct], (aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8);
    (o, x16(s.to_be_bytes(), ctr(0)))
}

/// encryption: ciphertext and tag of n bytes
pub fn ccm(key: &[u8], nonce: &[u8], aad: &[u8], d: &[u8], n: usize) -> (Vec<u8>, Vec<u8>) {
    let a = Aes::new(key);
    let q = 15 - nonce.len();
    let blk = |flags: u8, i: u64| {
        let mut b = [0u8; 16];
        b[8..].copy_from_slice(&i.to_be_bytes());
        b[0] = flags;
        b[1..1 + nonce.len()].copy_from_slice(nonce);
        b
    };
    let f = if aad.is_empty() { 0 } else { 0x40 } | ((n - 2) / 2 << 3) as u8 | (q - 1) as u8;
    let mut y = a.block(blk(f, d.len() as u64));
    let mut l = vec![];
    if !aad.is_empty() {
        assert!(aad.len() < 0xff00);
        l.extend_from_slice(&(aad.len() as u16).to_be_bytes());
        l.extend_from_slice(aad);
    }
    for c in l.chunks(16).chain(d.chunks(16)) {
        y = a.block(x16(y, pad(c)));
    }
    let ctr = |i: u64| a.block(blk((q - 1) as u8, i));
    let mut o = vec![];
    for (i, c) in d.chunks(16).enumerate() {
        let k = ctr(i as u64 + 1);
        o.extend(c.iter().zip(k).map(|(x, y)| x ^ y));
    }
    (o, x16(y, ctr(0))[..n].to_vec())
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::plan::{hex, unhex};
    #[test]
    fn vectors() {
        let k = unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f").unwrap();
        let p: [u8; 16] = unhex("00112233445566778899aabbccddeeff").unwrap().try_into().unwrap();
        assert_eq!(hex(&Aes::new(&k[..16]).block(p)), "69c4e0d86a7b0430d8cdb78070b4c55a");
        assert_eq!(hex(&Aes::new(&k[..24]).block(p)), "dda97ca4864cdfe06eaf70a0ec0d7191");
        assert_eq!(hex(&Aes::new(&k).block(p)), "8ea2b7ca516745bfeafc49904b496089");
        let k = unhex("feffe9928665731c6d6a8f9467308308").unwrap();
        let iv = unhex("cafebabefacedbaddecaf888").unwrap();
        let d = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39").unwrap();
        let ad = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2").unwrap();
        assert_eq!(hex(&gcm(&k, &iv, &ad, &d, false).1), "5bc94fbc3221a5db94fae95ae7121a47");
        assert_eq!(hex(&gcm(&k, &iv[..8], &ad, &d, false).1), "3612d2e79e3b0785561be14aaca2fccb");
        let k = unhex("404142434445464748494a4b4c4d4e4f").unwrap();
        let n = unhex("10111213141516").unwrap();
        let (c, t) = ccm(&k, &n, &[0, 1, 2, 3, 4, 5, 6, 7], &[0x20, 0x21, 0x22, 0x23], 4);
        assert_eq!(hex(&c) + &hex(&t), "7162015b4dac255d");
    }
}
