//! Independent reference implementations used as oracles. Written from the
//! public specifications; shares no code with the tree under test.

// ---------------------------------------------------------------- SHA-2
#[cfg(test)]
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// floor(2^64 * frac(p^(1/k))) by integer search
#[cfg(test)]
fn frac_root(p: u64, k: u32) -> u64 {
    // find largest x with x^k <= p * 2^(64k), as 256+ bit arithmetic
    let target = Big::from_u64(p).shl(64 * k as usize);
    let mut x = Big::zero();
    for bit in (0..72).rev() {
        let t = x.add(&Big::from_u64(1).shl(bit));
        let mut pw = Big::from_u64(1);
        for _ in 0..k {
            pw = pw.mul(&t);
        }
        if pw.cmp(&target) != std::cmp::Ordering::Greater {
            x = t;
        }
    }
    x.low_u64()
}
mod consts;
struct Consts {
    k512: [u64; 80],
    h512: [u64; 8],
}
fn consts() -> Consts {
    Consts { k512: consts::K512, h512: consts::H512 }
}
#[test]
fn sha_constants() {
    let p = primes(80);
    for i in 0..80 {
        assert_eq!(consts::K512[i], frac_root(p[i], 3));
    }
    for i in 0..8 {
        assert_eq!(consts::H512[i], frac_root(p[i], 2));
    }
}
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let c = consts();
    let mut h: [u32; 8] = [0; 8];
    for i in 0..8 {
        h[i] = (c.h512[i] >> 32) as u32;
    }
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut s = h;
        for i in 0..64 {
            let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((c.k512[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = s0.wrapping_add(maj);
            s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
fn sha512_compress(h: &mut [u64; 8], blk: &[u8]) {
    let c = consts();
    let mut w = [0u64; 80];
    for i in 0..16 {
        w[i] = u64::from_be_bytes(blk[8 * i..8 * i + 8].try_into().unwrap());
    }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut s = *h;
    for i in 0..80 {
        let s1 = s[4].rotate_right(14) ^ s[4].rotate_right(18) ^ s[4].rotate_right(41);
        let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
        let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k512[i]).wrapping_add(w[i]);
        let s0 = s[0].rotate_right(28) ^ s[0].rotate_right(34) ^ s[0].rotate_right(39);
        let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
        let t2 = s0.wrapping_add(maj);
        s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(s[i]);
    }
}
pub fn sha512(data: &[u8]) -> [u8; 64] {
    let mut h = consts().h512;
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u128) * 8).to_be_bytes());
    for blk in m.chunks(128) {
        sha512_compress(&mut h, blk);
    }
    let mut out = [0; 64];
    for i in 0..8 {
        out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
/// SHA-512/256 (FIPS 180-4), used by Stacks txids
pub fn sha512_256(data: &[u8]) -> [u8; 32] {
    let mut h = consts().h512;
    for x in h.iter_mut() {
        *x ^= 0xa5a5a5a5a5a5a5a5;
    }
    let gen = |h: [u64; 8], data: &[u8]| {
        let mut h = h;
        let mut m = data.to_vec();
        m.push(0x80);
        while m.len() % 128 != 112 {
            m.push(0);
        }
        m.extend_from_slice(&((data.len() as u128) * 8).to_be_bytes());
        for blk in m.chunks(128) {
            sha512_compress(&mut h, blk);
        }
        h
    };
    let iv = gen(h, b"SHA-512/256");
    let r = gen(iv, data);
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&r[i].to_be_bytes());
    }
    out
}
pub fn sha256d(d: &[u8]) -> [u8; 32] {
    sha256(&sha256(d))
}
pub fn hmac_sha512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut k = [0u8; 128];
    if key.len() > 128 {
        k[..64].copy_from_slice(&sha512(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(data);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha512(&i));
    sha512(&o)
}
/// PBKDF2-HMAC-SHA512, one 64-byte block
pub fn pbkdf2_sha512(pw: &[u8], salt: &[u8], iters: u32) -> [u8; 64] {
    // precomputed inner/outer midstates
    let mut k = [0u8; 128];
    if pw.len() > 128 {
        k[..64].copy_from_slice(&sha512(pw));
    } else {
        k[..pw.len()].copy_from_slice(pw);
    }
    let mut hi = consts().h512;
    let ib: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    sha512_compress(&mut hi, &ib);
    let mut ho = consts().h512;
    let ob: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    sha512_compress(&mut ho, &ob);
    let fin = |h: &[u64; 8], d: &[u8; 64]| -> [u8; 64] {
        let mut h = *h;
        let mut blk = [0u8; 128];
        blk[..64].copy_from_slice(d);
        blk[64] = 0x80;
        blk[112..].copy_from_slice(&((192u128) * 8).to_be_bytes());
        sha512_compress(&mut h, &blk);
        let mut out = [0; 64];
        for i in 0..8 {
            out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
        }
        out
    };
    let mut s = salt.to_vec();
    s.extend_from_slice(&1u32.to_be_bytes());
    let mut u = hmac_sha512(pw, &s);
    let mut t = u;
    for _ in 1..iters {
        u = fin(&ho, &fin(&hi, &u));
        for i in 0..64 {
            t[i] ^= u[i];
        }
    }
    t
}

// ---------------------------------------------------------------- RIPEMD-160
pub fn ripemd160(data: &[u8]) -> [u8; 20] {
    const R1: [usize; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3,
        10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0,
        5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
    ];
    const R2: [usize; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15,
        5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15,
        10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
    ];
    const S1: [u32; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
        11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
        9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
    ];
    const S2: [u32; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
        9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
        8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
    ];
    const K1: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E];
    const K2: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j / 16 {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    for blk in m.chunks(64) {
        let x: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        let (mut a2, mut b2, mut c2, mut d2, mut e2) = (h[0], h[1], h[2], h[3], h[4]);
        for j in 0..80 {
            let t = a.wrapping_add(f(j, b, c, d)).wrapping_add(x[R1[j]]).wrapping_add(K1[j / 16]).rotate_left(S1[j]).wrapping_add(e);
            a = e;
            e = d;
            d = c.rotate_left(10);
            c = b;
            b = t;
            let t = a2.wrapping_add(f(79 - j, b2, c2, d2)).wrapping_add(x[R2[j]]).wrapping_add(K2[j / 16]).rotate_left(S2[j]).wrapping_add(e2);
            a2 = e2;
            e2 = d2;
            d2 = c2.rotate_left(10);
            c2 = b2;
            b2 = t;
        }
        let t = h[1].wrapping_add(c).wrapping_add(d2);
        h[1] = h[2].wrapping_add(d).wrapping_add(e2);
        h[2] = h[3].wrapping_add(e).wrapping_add(a2);
        h[3] = h[4].wrapping_add(a).wrapping_add(b2);
        h[4] = h[0].wrapping_add(b).wrapping_add(c2);
        h[0] = t;
    }
    let mut out = [0; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}
pub fn hash160(d: &[u8]) -> [u8; 20] {
    ripemd160(&sha256(d))
}

// ---------------------------------------------------------------- big integers
/// Little-endian base 2^32, no trailing zero limbs.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(pub Vec<u32>);
impl Big {
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn from_u64(x: u64) -> Big {
        Big(vec![x as u32, (x >> 32) as u32]).trim()
    }
    pub fn from_words(w: &[u64]) -> Big {
        Big(w.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()).trim()
    }
    pub fn from_be(b: &[u8]) -> Big {
        let mut v: Vec<u32> = vec![];
        for c in b.rchunks(4) {
            let mut x = 0u32;
            for y in c {
                x = x << 8 | *y as u32;
            }
            v.push(x);
        }
        Big(v).trim()
    }
    fn trim(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn low_u64(&self) -> u64 {
        *self.0.first().unwrap_or(&0) as u64 | (*self.0.get(1).unwrap_or(&0) as u64) << 32
    }
    /// value mod 2^(64 n)
    pub fn words(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| *self.0.get(2 * i).unwrap_or(&0) as u64 | (*self.0.get(2 * i + 1).unwrap_or(&0) as u64) << 32)
            .collect()
    }
    pub fn to_be(&self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        for i in 0..n {
            let limb = *self.0.get(i / 4).unwrap_or(&0);
            v[n - 1 - i] = (limb >> (8 * (i % 4))) as u8;
        }
        v
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut v = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Big(v).trim()
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Big) -> Big {
        let mut v = vec![];
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut x = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if x < 0 {
                x += 1 << 32;
                b = 1;
            }
            v.push(x as u32);
        }
        assert_eq!(b, 0);
        Big(v).trim()
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            for j in 0..o.0.len() {
                c += self.0[i] as u64 * o.0[j] as u64 + v[i + j] as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                c += v[k] as u64;
                v[k] = c as u32;
                c >>= 32;
                k += 1;
            }
        }
        Big(v).trim()
    }
    pub fn shl(&self, n: usize) -> Big {
        let mut v = vec![0u32; n / 32];
        let s = n % 32;
        let mut c = 0u64;
        for x in &self.0 {
            c |= (*x as u64) << s;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Big(v).trim()
    }
    pub fn shr(&self, n: usize) -> Big {
        if n / 32 >= self.0.len() {
            return Big::zero();
        }
        let s = n % 32;
        let a = &self.0[n / 32..];
        Big((0..a.len()).map(|i| ((a[i] as u64 | (*a.get(i + 1).unwrap_or(&0) as u64) << 32) >> s) as u32).collect()).trim()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(x) => 32 * self.0.len() - x.leading_zeros() as usize,
        }
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                if self.0[i] != o.0[i] {
                    return self.0[i].cmp(&o.0[i]);
                }
            }
            std::cmp::Ordering::Equal
        })
    }
    /// quotient and remainder
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let mut q = vec![0u32; self.0.len()];
        let mut r = Big::zero();
        for i in (0..self.bits()).rev() {
            r = r.shl(1);
            if self.0[i / 32] >> (i % 32) & 1 == 1 {
                r = r.add(&Big::from_u64(1));
            }
            if r.cmp(d) != std::cmp::Ordering::Less {
                r = r.sub(d);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (Big(q).trim(), r)
    }
}

// ---------------------------------------------------------------- c32check
pub const C32: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
/// base-32 number text with one '0' per leading zero byte, by long division
pub fn c32_encode(data: &[u8]) -> String {
    let mut n = Big::from_be(data);
    let mut s = vec![];
    while !n.is_zero() {
        s.push(C32[(n.low_u64() & 31) as usize]);
        n = n.shr(5);
    }
    for b in data {
        if *b == 0 {
            s.push(b'0')
        } else {
            break;
        }
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn c32_decode_strict(s: &str) -> Option<Vec<u8>> {
    let mut n = Big::zero();
    let mut zeros = 0;
    let mut lead = true;
    for b in s.bytes() {
        let v = C32.iter().position(|c| *c == b)?;
        if lead && v == 0 {
            zeros += 1;
        } else {
            lead = false;
        }
        n = n.shl(5).add(&Big::from_u64(v as u64));
    }
    let mut out = vec![0; zeros];
    out.extend(n.to_be((n.bits() + 7) / 8));
    Some(out)
}
pub fn stacks_address(version: u8, hash: &[u8]) -> String {
    let mut v = vec![version];
    v.extend_from_slice(hash);
    let ck = sha256d(&v);
    let mut body = hash.to_vec();
    body.extend_from_slice(&ck[..4]);
    format!("S{}{}", C32[version as usize] as char, c32_encode(&body))
}

// ---------------------------------------------------------------- base58
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn b58(data: &[u8]) -> String {
    let mut n = Big::from_be(data);
    let mut s = vec![];
    let d = Big::from_u64(58);
    while !n.is_zero() {
        let (q, r) = n.divrem(&d);
        s.push(B58[r.low_u64() as usize]);
        n = q;
    }
    for b in data {
        if *b == 0 {
            s.push(b'1')
        } else {
            break;
        }
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn wif(mainnet: bool, key: &[u8; 32]) -> (Vec<u8>, String) {
    let mut v = vec![if mainnet { 128 } else { 239 }];
    v.extend_from_slice(key);
    v.push(1);
    let ck = sha256d(&v);
    v.extend_from_slice(&ck[..4]);
    let t = b58(&v);
    (v, t)
}

// ---------------------------------------------------------------- Merkle (Bitcoin)
/// leaves in internal byte order; root and path of `idx`
pub fn merkle(leaves: &[[u8; 32]], mut idx: usize) -> ([u8; 32], Vec<[u8; 32]>) {
    let mut lvl = leaves.to_vec();
    let mut path = vec![];
    while lvl.len() > 1 {
        if lvl.len() % 2 == 1 {
            lvl.push(*lvl.last().unwrap());
        }
        path.push(lvl[idx ^ 1]);
        idx /= 2;
        lvl = lvl.chunks(2).map(|c| sha256d(&[c[0], c[1]].concat())).collect();
    }
    (lvl[0], path)
}

#[cfg(test)]
mod tests {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert!(hex(&sha512(b"abc")).starts_with("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a"));
        assert_eq!(hex(&sha512_256(b"abc")), "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23");
        assert_eq!(hex(&ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
        assert_eq!(hex(&ripemd160(b"")), "9c1185a5c5e9fc54612808977ee8f548b2258d31");
        assert_eq!(stacks_address(22, &[0xa4; 20]).len(), 41);
        assert!(hex(&pbkdf2_sha512(b"password", b"salt", 2)).starts_with("e1d9c16aa681708a45f5c7c4e215ceb66e011a2e"));
    }
}

// ---------------------------------------------------------------- bech32 / bech32m (BIP-173, BIP-350)
const B32: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn polymod(v: &[u8]) -> u32 {
    let g = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut c = 1u32;
    for x in v {
        let b = c >> 25;
        c = (c & 0x1ffffff) << 5 ^ *x as u32;
        for (i, gi) in g.iter().enumerate() {
            if b >> i & 1 == 1 {
                c ^= gi;
            }
        }
    }
    c
}
pub fn segwit_address(hrp: &str, version: u8, program: &[u8]) -> String {
    let mut d = vec![version];
    let (mut acc, mut bits) = (0u32, 0);
    for b in program {
        acc = acc << 8 | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            d.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        d.push((acc << (5 - bits) & 31) as u8);
    }
    let mut v: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(hrp.bytes().map(|b| b & 31));
    v.extend(&d);
    v.extend([0; 6]);
    let pm = polymod(&v) ^ if version == 0 { 1 } else { 0x2bc830a3 };
    for i in 0..6 {
        d.push((pm >> (5 * (5 - i)) & 31) as u8);
    }
    format!("{hrp}1{}", d.iter().map(|x| B32[*x as usize] as char).collect::<String>())
}
pub fn b58check(prefix: u8, payload: &[u8]) -> String {
    let mut v = vec![prefix];
    v.extend_from_slice(payload);
    let c = sha256d(&v);
    v.extend_from_slice(&c[..4]);
    b58(&v)
}
pub fn tagged(tag: &str, data: &[u8]) -> [u8; 32] {
    let t = sha256(tag.as_bytes());
    sha256(&[&t[..], &t[..], data].concat())
}

// ---------------------------------------------------------------- BIP-32 (scalar part; the caller supplies point multiplication)
pub struct Xprv {
    pub key: [u8; 32],
    pub chain: [u8; 32],
}
fn order() -> Big {
    Big::from_be(&[
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6,
        0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
    ])
}
pub fn bip32_master(seed: &[u8]) -> Xprv {
    let i = hmac_sha512(b"Bitcoin seed", seed);
    Xprv { key: i[..32].try_into().unwrap(), chain: i[32..].try_into().unwrap() }
}
pub fn bip32_child(p: &Xprv, index: u32, pubkey: &dyn Fn(&[u8; 32]) -> [u8; 33]) -> Xprv {
    let mut d = vec![];
    if index >= 1 << 31 {
        d.push(0);
        d.extend_from_slice(&p.key);
    } else {
        d.extend_from_slice(&pubkey(&p.key));
    }
    d.extend_from_slice(&index.to_be_bytes());
    let i = hmac_sha512(&p.chain, &d);
    let k = Big::from_be(&i[..32]).add(&Big::from_be(&p.key)).divrem(&order()).1;
    Xprv { key: k.to_be(32).try_into().unwrap(), chain: i[32..].try_into().unwrap() }
}
