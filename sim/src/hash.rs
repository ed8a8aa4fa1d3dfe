//! SHA-1, SHA-256 and HMAC, written apart from the library as an oracle.

pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for b in pad(m).chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn pad(m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 {
        v.push(0);
    }
    v.extend((m.len() as u64 * 8).to_be_bytes());
    v
}

/// first 32 bits of the fractional parts of the `n`th roots of the primes
fn consts(n: usize, cube: bool) -> Vec<u32> {
    let mut v = vec![];
    let mut p = 2u128;
    while v.len() < n {
        if (2..p).all(|d| p % d != 0) {
            // largest r with r^k <= p * 2^(32 k)
            let k = if cube { 3 } else { 2 };
            let t = p << (32 * k);
            let (mut lo, mut hi) = (0u128, 1u128 << 36);
            while hi - lo > 1 {
                let m = (lo + hi) / 2;
                if (if cube { m * m * m } else { m * m }) <= t {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            v.push(lo as u32);
        }
        p += 1;
    }
    v
}

pub fn sha256(m: &[u8]) -> Vec<u8> {
    static K: std::sync::LazyLock<(Vec<u32>, Vec<u32>)> = std::sync::LazyLock::new(|| (consts(8, false), consts(64, true)));
    let mut h: Vec<u32> = K.0.clone();
    for b in pad(m).chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut x = h.clone();
        for i in 0..64 {
            let s1 = x[4].rotate_right(6) ^ x[4].rotate_right(11) ^ x[4].rotate_right(25);
            let ch = (x[4] & x[5]) ^ (!x[4] & x[6]);
            let t1 = x[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K.1[i]).wrapping_add(w[i]);
            let s0 = x[0].rotate_right(2) ^ x[0].rotate_right(13) ^ x[0].rotate_right(22);
            let t2 = s0.wrapping_add((x[0] & x[1]) ^ (x[0] & x[2]) ^ (x[1] & x[2]));
            x.rotate_right(1);
            x[4] = x[4].wrapping_add(t1);
            x[0] = t1.wrapping_add(t2);
        }
        for (a, b) in h.iter_mut().zip(x) {
            *a = a.wrapping_add(b);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn hmac(f: fn(&[u8]) -> Vec<u8>, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 64 { f(key) } else { key.to_vec() };
    k.resize(64, 0);
    let mut a: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    a.extend(m);
    let mut b: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    b.extend(f(&a));
    f(&b)
}

/// RFC 4226, keys of 20 (SHA-1) or 32 (SHA-256) bytes
pub fn hotp(key: &[u8], c: u64, digits: u32) -> String {
    let f = if key.len() == 20 { sha1 } else { sha256 };
    let h = hmac(f, key, &c.to_be_bytes());
    let o = (h[h.len() - 1] & 15) as usize;
    let v = u32::from_be_bytes(h[o..o + 4].try_into().unwrap()) & 0x7fff_ffff;
    format!("{:0w$}", v as u64 % 10u64.pow(digits), w = digits as usize)
}

#[test]
fn vectors() {
    let hx = |v: Vec<u8>| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
    assert_eq!(hx(sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
    assert_eq!(hx(sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(hotp(b"12345678901234567890", 0, 6), "755224");
    assert_eq!(hotp(b"12345678901234567890", 9, 6), "520489");
}
