//! Independent reference implementations, written from the standards: SHA-2 (FIPS 180-4), HMAC (RFC 2104), HKDF (RFC 5869),
//! AES-GCM (FIPS 197, SP 800-38D), ChaCha20-Poly1305 (RFC 8439), prime-field elliptic curves and ECDSA (FIPS 186-4, SEC 1).
#![allow(clippy::many_single_char_names)]

// ---------------------------------------------------------------- SHA-2
#[rustfmt::skip]
const K: [u64; 80] = [
    0x428a2f98d728ae22, 0x7137449123ef65cd, 0xb5c0fbcfec4d3b2f, 0xe9b5dba58189dbbc, 0x3956c25bf348b538, 0x59f111f1b605d019, 0x923f82a4af194f9b, 0xab1c5ed5da6d8118,
    0xd807aa98a3030242, 0x12835b0145706fbe, 0x243185be4ee4b28c, 0x550c7dc3d5ffb4e2, 0x72be5d74f27b896f, 0x80deb1fe3b1696b1, 0x9bdc06a725c71235, 0xc19bf174cf692694,
    0xe49b69c19ef14ad2, 0xefbe4786384f25e3, 0x0fc19dc68b8cd5b5, 0x240ca1cc77ac9c65, 0x2de92c6f592b0275, 0x4a7484aa6ea6e483, 0x5cb0a9dcbd41fbd4, 0x76f988da831153b5,
    0x983e5152ee66dfab, 0xa831c66d2db43210, 0xb00327c898fb213f, 0xbf597fc7beef0ee4, 0xc6e00bf33da88fc2, 0xd5a79147930aa725, 0x06ca6351e003826f, 0x142929670a0e6e70,
    0x27b70a8546d22ffc, 0x2e1b21385c26c926, 0x4d2c6dfc5ac42aed, 0x53380d139d95b3df, 0x650a73548baf63de, 0x766a0abb3c77b2a8, 0x81c2c92e47edaee6, 0x92722c851482353b,
    0xa2bfe8a14cf10364, 0xa81a664bbc423001, 0xc24b8b70d0f89791, 0xc76c51a30654be30, 0xd192e819d6ef5218, 0xd69906245565a910, 0xf40e35855771202a, 0x106aa07032bbd1b8,
    0x19a4c116b8d2d0c8, 0x1e376c085141ab53, 0x2748774cdf8eeb99, 0x34b0bcb5e19b48a8, 0x391c0cb3c5c95a63, 0x4ed8aa4ae3418acb, 0x5b9cca4f7763e373, 0x682e6ff3d6b2b8a3,
    0x748f82ee5defb2fc, 0x78a5636f43172f60, 0x84c87814a1f0ab72, 0x8cc702081a6439ec, 0x90befffa23631e28, 0xa4506cebde82bde9, 0xbef9a3f7b2c67915, 0xc67178f2e372532b,
    0xca273eceea26619c, 0xd186b8c721c0c207, 0xeada7dd6cde0eb1e, 0xf57d4f7fee6ed178, 0x06f067aa72176fba, 0x0a637dc5a2c898a6, 0x113f9804bef90dae, 0x1b710b35131c471b,
    0x28db77f523047d84, 0x32caab7b40c72493, 0x3c9ebe0a15c9bebc, 0x431d67c49c100d4c, 0x4cc5d4becb3e42b6, 0x597f299cfc657e2a, 0x5fcb6fab3ad6faec, 0x6c44198c4a475817,
];
const IV512: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
const IV384: [u64; 8] = [0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4];

/// SHA-256, SHA-384 or SHA-512 by digest size
pub fn sha(size: usize, d: &[u8]) -> Vec<u8> {
    if size == 32 {
        let mut h: Vec<u32> = IV512.iter().map(|x| (x >> 32) as u32).collect();
        let mut m = d.to_vec();
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend((d.len() as u64 * 8).to_be_bytes());
        for b in m.chunks(64) {
            let mut w: Vec<u32> = b.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
            for i in 16..64 {
                let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ w[i - 15] >> 3;
                let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ w[i - 2] >> 10;
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let mut v = h.clone();
            for i in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let ch = v[4] & v[5] ^ !v[4] & v[6];
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((K[i] >> 32) as u32).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let maj = v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2];
                v.rotate_right(1);
                v[4] = v[4].wrapping_add(t1);
                v[0] = t1.wrapping_add(s0.wrapping_add(maj));
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
        return h.iter().flat_map(|x| x.to_be_bytes()).collect();
    }
    let mut h = (if size == 48 { IV384 } else { IV512 }).to_vec();
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend((d.len() as u128 * 8).to_be_bytes());
    for b in m.chunks(128) {
        let mut w: Vec<u64> = b.chunks(8).map(|x| u64::from_be_bytes(x.try_into().unwrap())).collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ w[i - 15] >> 7;
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ w[i - 2] >> 6;
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = v[4] & v[5] ^ !v[4] & v[6];
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2];
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(s0.wrapping_add(maj));
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).take(size).collect()
}
pub fn hmac(size: usize, key: &[u8], d: &[u8]) -> Vec<u8> {
    let b = if size == 32 { 64 } else { 128 };
    let mut k = if key.len() > b { sha(size, key) } else { key.to_vec() };
    k.resize(b, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend(d);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend(sha(size, &i));
    sha(size, &o)
}
pub fn expand(size: usize, prk: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let (mut out, mut t, mut c) = (vec![], vec![], 1u8);
    while out.len() < n {
        t.extend(info);
        t.push(c);
        t = hmac(size, prk, &t);
        out.extend(&t);
        c += 1;
    }
    out.truncate(n);
    out
}

// ---------------------------------------------------------------- AES-GCM
fn xt(a: u8) -> u8 {
    a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gm(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
pub struct Aes(Vec<[u8; 16]>, [u8; 256]);
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let mut sb = [0u8; 256];
        for a in 0..256usize {
            let inv = (0..=255u8).find(|b| gm(a as u8, *b) == 1).unwrap_or(0);
            sb[a] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        let nk = key.len() / 4;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|x| x.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nk + 7) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                t = t.map(|x| sb[x as usize]);
                t[0] ^= rc;
                rc = xt(rc);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|x| sb[x as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes(w.chunks(4).map(|x| x.concat().try_into().unwrap()).collect(), sb)
    }
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        let n = self.0.len() - 1;
        for (r, k) in self.0.iter().enumerate() {
            if r > 0 {
                s = s.map(|x| self.1[x as usize]);
                let o = s;
                for c in 0..4 {
                    for i in 0..4 {
                        s[4 * c + i] = o[4 * ((c + i) % 4) + i];
                    }
                }
                if r < n {
                    for c in s.chunks_mut(4) {
                        let o = [c[0], c[1], c[2], c[3]];
                        for i in 0..4 {
                            c[i] = gm(o[i], 2) ^ gm(o[(i + 1) % 4], 3) ^ o[(i + 2) % 4] ^ o[(i + 3) % 4];
                        }
                    }
                }
            }
            for i in 0..16 {
                s[i] ^= k[i];
            }
        }
        s
    }
}
fn gf(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0, y);
    for i in 0..128 {
        if x >> (127 - i) & 1 != 0 {
            z ^= v;
        }
        v = v >> 1 ^ if v & 1 != 0 { 0xe1 << 120 } else { 0 };
    }
    z
}
pub fn gcm(key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let a = Aes::new(key);
    let h = u128::from_be_bytes(a.block(&[0; 16]));
    let ctr = |n: u32| {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&n.to_be_bytes());
        a.block(&b)
    };
    let mut ct = pt.to_vec();
    for (i, c) in ct.chunks_mut(16).enumerate() {
        let k = ctr(i as u32 + 2);
        for (x, y) in c.iter_mut().zip(k) {
            *x ^= y;
        }
    }
    let mut y = 0u128;
    for part in [aad, &ct[..]] {
        for b in part.chunks(16) {
            let mut x = [0u8; 16];
            x[..b.len()].copy_from_slice(b);
            y = gf(y ^ u128::from_be_bytes(x), h);
        }
    }
    y = gf(y ^ ((aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8), h);
    let t = y ^ u128::from_be_bytes(ctr(1));
    (ct, t.to_be_bytes().to_vec())
}

// ---------------------------------------------------------------- ChaCha20-Poly1305
fn chacha(key: &[u8], n: u32, iv: &[u8]) -> Vec<u8> {
    let mut s: Vec<u32> = vec![0x61707865, 0x3320646e, 0x79622d32, 0x6b206574];
    s.extend(key.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())));
    s.push(n);
    s.extend(iv.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())));
    let mut w = s.clone();
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        for (x, y, z, r) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
            w[x] = w[x].wrapping_add(w[y]);
            w[z] = (w[z] ^ w[x]).rotate_left(r);
        }
    };
    for _ in 0..10 {
        for i in 0..4 {
            q(i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    w.iter().zip(&s).flat_map(|(a, b)| a.wrapping_add(*b).to_le_bytes()).collect()
}
fn poly1305(key: &[u8], m: &[u8]) -> Vec<u8> {
    // base 2^26
    let limbs = |b: &[u8]| -> Vec<u64> { (0..5).map(|i| (0..26).fold(0u64, |a, k| { let p = i * 26 + k; a | (b.get(p / 8).map_or(0, |x| x >> (p % 8) & 1) as u64) << k })).collect() };
    let mut rb = key[..16].to_vec();
    for i in [3, 7, 11, 15] {
        rb[i] &= 15;
    }
    for i in [4, 8, 12] {
        rb[i] &= 252;
    }
    let r = limbs(&rb);
    let mut a = vec![0u64; 5];
    for c in m.chunks(16) {
        let mut b = c.to_vec();
        b.push(1);
        for (x, y) in a.iter_mut().zip(limbs(&b)) {
            *x += y;
        }
        let mut t = vec![0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                t[(i + j) % 5] += a[i] * r[j] * if i + j >= 5 { 5 } else { 1 };
            }
        }
        for _ in 0..2 {
            let mut cy = 0;
            for x in t.iter_mut() {
                *x += cy;
                cy = *x >> 26;
                *x &= (1 << 26) - 1;
            }
            t[0] += cy * 5;
        }
        a = t;
    }
    for _ in 0..3 {
        let mut cy = 0;
        for x in a.iter_mut() {
            *x += cy;
            cy = *x >> 26;
            *x &= (1 << 26) - 1;
        }
        a[0] += cy * 5;
    }
    let full = (1u64 << 26) - 1;
    if a[0] >= full - 4 && a[1..].iter().all(|x| *x == full) {
        a[0] -= full - 4;
        a[1..].fill(0);
    }
    let v = (0..5).fold(0u128, |s, i| s.wrapping_add((a[i] as u128).wrapping_shl(26 * i as u32)));
    let v = v.wrapping_add(u128::from_le_bytes(key[16..32].try_into().unwrap()));
    v.to_le_bytes().to_vec()
}
pub fn chapoly(key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut ct = pt.to_vec();
    for (i, c) in ct.chunks_mut(64).enumerate() {
        let k = chacha(key, i as u32 + 1, iv);
        for (x, y) in c.iter_mut().zip(k) {
            *x ^= y;
        }
    }
    let mut m = aad.to_vec();
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend(&ct);
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend((aad.len() as u64).to_le_bytes());
    m.extend((ct.len() as u64).to_le_bytes());
    let t = poly1305(&chacha(key, 0, iv)[..32], &m);
    (ct, t)
}

// ---------------------------------------------------------------- prime-field curves
pub type N = [u64; 6];
pub fn be(b: &[u8]) -> N {
    let mut r = [0; 6];
    for (i, x) in b.iter().rev().take(48).enumerate() {
        r[i / 8] |= (*x as u64) << (8 * (i % 8));
    }
    r
}
pub fn hex(s: &str) -> N {
    be(&(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<_>>())
}
pub fn bytes(n: &N, size: usize) -> Vec<u8> {
    (0..size).rev().map(|i| (n[i / 8] >> (8 * (i % 8))) as u8).collect()
}
pub fn lt(a: &N, b: &N) -> bool {
    (0..6).rev().find_map(|i| (a[i] != b[i]).then(|| a[i] < b[i])).unwrap_or(false)
}
pub fn sub(a: &N, b: &N) -> N {
    let (mut r, mut c) = ([0; 6], false);
    for i in 0..6 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (x, c2) = x.overflowing_sub(c as u64);
        r[i] = x;
        c = c1 || c2;
    }
    r
}
/// (a + b, carry)
pub fn add(a: &N, b: &N) -> (N, bool) {
    let (mut r, mut c) = ([0; 6], false);
    for i in 0..6 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(c as u64);
        r[i] = x;
        c = c1 || c2;
    }
    (r, c)
}
/// arithmetic modulo an odd number, in Montgomery form
pub struct Mod {
    pub m: N,
    k: u64,
    r2: N,
}
impl Mod {
    pub fn new(m: N) -> Mod {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mut s = Mod { m, k: inv.wrapping_neg(), r2: [0; 6] };
        let mut x = [1, 0, 0, 0, 0, 0];
        for _ in 0..768 {
            x = s.add(&x, &x);
        }
        s.r2 = x;
        s
    }
    pub fn add(&self, a: &N, b: &N) -> N {
        let (r, c) = add(a, b);
        if c || !lt(&r, &self.m) { sub(&r, &self.m) } else { r }
    }
    pub fn sub(&self, a: &N, b: &N) -> N {
        if lt(a, b) { let (x, _) = add(a, &self.m); sub(&x, b) } else { sub(a, b) }
    }
    pub fn mul(&self, a: &N, b: &N) -> N {
        let mut t = [0u64; 8];
        for i in 0..6 {
            let mut c = 0u128;
            for j in 0..6 {
                let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[6] as u128 + c;
            t[6] = v as u64;
            t[7] = (v >> 64) as u64;
            let q = t[0].wrapping_mul(self.k);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..6 {
                let v = t[j] as u128 + q as u128 * self.m[j] as u128 + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[6] as u128 + c;
            t[5] = v as u64;
            t[6] = t[7] + (v >> 64) as u64;
        }
        let r: N = t[..6].try_into().unwrap();
        if t[6] != 0 || !lt(&r, &self.m) { sub(&r, &self.m) } else { r }
    }
    pub fn to(&self, a: &N) -> N {
        let mut a = *a;
        while !lt(&a, &self.m) {
            a = sub(&a, &self.m);
        }
        self.mul(&a, &self.r2)
    }
    pub fn from(&self, a: &N) -> N {
        self.mul(a, &[1, 0, 0, 0, 0, 0])
    }
    pub fn pow(&self, a: &N, e: &N) -> N {
        let mut r = self.to(&[1, 0, 0, 0, 0, 0]);
        for i in (0..384).rev() {
            r = self.mul(&r, &r);
            if e[i / 64] >> (i % 64) & 1 != 0 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &N) -> N {
        self.pow(a, &sub(&self.m, &[2, 0, 0, 0, 0, 0]))
    }
}
pub type Pt = Option<(N, N)>;
pub struct Curve {
    pub p: Mod,
    pub n: Mod,
    pub size: usize,
    a: N,
    b: N,
    pub g: Pt,
}
impl Curve {
    fn new(size: usize, p: &str, n: &str, b: &str, x: &str, y: &str) -> Curve {
        let p = Mod::new(hex(p));
        let (b, x, y) = (p.to(&hex(b)), p.to(&hex(x)), p.to(&hex(y)));
        let three = p.to(&[3, 0, 0, 0, 0, 0]);
        let c = Curve { a: p.sub(&[0; 6], &three), b, g: Some((x, y)), n: Mod::new(hex(n)), size, p };
        assert!(c.on(&c.g) && c.mul(&c.n.m, &c.g).is_none());
        c
    }
    pub fn p256() -> Curve {
        Curve::new(32, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
    }
    pub fn p384() -> Curve {
        Curve::new(48, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973", "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef", "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7", "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")
    }
    fn rhs(&self, x: &N) -> N {
        let f = &self.p;
        let x2 = f.add(&f.mul(x, x), &self.a);
        f.add(&f.mul(&x2, x), &self.b)
    }
    pub fn on(&self, p: &Pt) -> bool {
        p.map_or(false, |(x, y)| self.p.mul(&y, &y) == self.rhs(&x))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let f = &self.p;
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return if a.is_some() { *a } else { *b } };
        let l = if x1 == x2 {
            if y1 != y2 || *y1 == [0; 6] {
                return None;
            }
            let x = f.mul(x1, x1);
            f.mul(&f.add(&f.add(&f.add(&x, &x), &x), &self.a), &f.inv(&f.add(y1, y1)))
        } else {
            f.mul(&f.sub(y2, y1), &f.inv(&f.sub(x2, x1)))
        };
        let x = f.sub(&f.sub(&f.mul(&l, &l), x1), x2);
        Some((x, f.sub(&f.mul(&l, &f.sub(x1, &x)), y1)))
    }
    pub fn mul(&self, k: &N, p: &Pt) -> Pt {
        let mut r = None;
        for i in (0..384).rev() {
            r = self.add(&r, &r);
            if k[i / 64] >> (i % 64) & 1 != 0 {
                r = self.add(&r, p);
            }
        }
        r
    }
    /// x || y
    pub fn out(&self, p: &Pt) -> Vec<u8> {
        let (x, y) = p.unwrap();
        [bytes(&self.p.from(&x), self.size), bytes(&self.p.from(&y), self.size)].concat()
    }
    pub fn point(&self, b: &[u8]) -> Pt {
        let (x, y) = (be(&b[..self.size]), be(&b[self.size..]));
        let p = Some((self.p.to(&x), self.p.to(&y)));
        (lt(&x, &self.p.m) && lt(&y, &self.p.m) && self.on(&p)).then(|| p).flatten()
    }
    /// the point with this x and the even y, if there is one
    pub fn lift(&self, x: u64) -> Pt {
        let f = &self.p;
        let x = f.to(&[x, 0, 0, 0, 0, 0]);
        // p = 3 mod 4
        let (mut e, _) = add(&f.m, &[1, 0, 0, 0, 0, 0]);
        for _ in 0..2 {
            for i in 0..6 {
                e[i] = e[i] >> 1 | if i < 5 { e[i + 1] << 63 } else { 0 };
            }
        }
        let y = f.pow(&self.rhs(&x), &e);
        let p = Some((x, y));
        self.on(&p).then(|| p).flatten()
    }
    fn z(&self, h: &[u8]) -> N {
        be(&h[..h.len().min(self.size)])
    }
    /// the signature with nonce k whose point kG is given
    pub fn sign(&self, d: &N, h: &[u8], k: &N, kg: &Pt) -> (N, N) {
        let n = &self.n;
        let mut r = self.p.from(&kg.unwrap().0);
        if !lt(&r, &n.m) {
            r = sub(&r, &n.m);
        }
        let s = n.mul(&n.inv(&n.to(k)), &n.add(&n.to(&self.z(h)), &n.mul(&n.to(&r), &n.to(d))));
        (r, n.from(&s))
    }
    pub fn verify(&self, q: &Pt, h: &[u8], r: &N, s: &N) -> bool {
        let n = &self.n;
        if *r == [0; 6] || *s == [0; 6] || !lt(r, &n.m) || !lt(s, &n.m) {
            return false;
        }
        let w = n.inv(&n.to(s));
        let (u, v) = (n.from(&n.mul(&n.to(&self.z(h)), &w)), n.from(&n.mul(&n.to(r), &w)));
        let Some((x, _)) = self.add(&self.mul(&u, &self.g), &self.mul(&v, q)) else { return false };
        let mut x = self.p.from(&x);
        if !lt(&x, &n.m) {
            x = sub(&x, &n.m);
        }
        x == *r
    }
}
