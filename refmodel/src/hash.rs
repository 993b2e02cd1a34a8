//! SHA-256, SHA-512, RIPEMD-160, HMAC and PBKDF2 from their specifications.

const K256: [u32; 64] = [
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];

fn sha256_block(h: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([b[4*i], b[4*i+1], b[4*i+2], b[4*i+3]]); }
    for i in 16..64 {
        let s0 = w[i-15].rotate_right(7) ^ w[i-15].rotate_right(18) ^ (w[i-15] >> 3);
        let s1 = w[i-2].rotate_right(17) ^ w[i-2].rotate_right(19) ^ (w[i-2] >> 10);
        w[i] = w[i-16].wrapping_add(s0).wrapping_add(w[i-7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19];
    let mut it = m.chunks_exact(64);
    for b in &mut it { sha256_block(&mut h, b); }
    let r = it.remainder();
    let mut tail = [0u8; 128];
    tail[..r.len()].copy_from_slice(r);
    tail[r.len()] = 0x80;
    let n = if r.len() < 56 { 64 } else { 128 };
    tail[n-8..n].copy_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in tail[..n].chunks_exact(64) { sha256_block(&mut h, b); }
    let mut o = [0u8; 32];
    for i in 0..8 { o[4*i..4*i+4].copy_from_slice(&h[i].to_be_bytes()); }
    o
}

const K512: [u64; 80] = [
0x428a2f98d728ae22,0x7137449123ef65cd,0xb5c0fbcfec4d3b2f,0xe9b5dba58189dbbc,0x3956c25bf348b538,
0x59f111f1b605d019,0x923f82a4af194f9b,0xab1c5ed5da6d8118,0xd807aa98a3030242,0x12835b0145706fbe,
0x243185be4ee4b28c,0x550c7dc3d5ffb4e2,0x72be5d74f27b896f,0x80deb1fe3b1696b1,0x9bdc06a725c71235,
0xc19bf174cf692694,0xe49b69c19ef14ad2,0xefbe4786384f25e3,0x0fc19dc68b8cd5b5,0x240ca1cc77ac9c65,
0x2de92c6f592b0275,0x4a7484aa6ea6e483,0x5cb0a9dcbd41fbd4,0x76f988da831153b5,0x983e5152ee66dfab,
0xa831c66d2db43210,0xb00327c898fb213f,0xbf597fc7beef0ee4,0xc6e00bf33da88fc2,0xd5a79147930aa725,
0x06ca6351e003826f,0x142929670a0e6e70,0x27b70a8546d22ffc,0x2e1b21385c26c926,0x4d2c6dfc5ac42aed,
0x53380d139d95b3df,0x650a73548baf63de,0x766a0abb3c77b2a8,0x81c2c92e47edaee6,0x92722c851482353b,
0xa2bfe8a14cf10364,0xa81a664bbc423001,0xc24b8b70d0f89791,0xc76c51a30654be30,0xd192e819d6ef5218,
0xd69906245565a910,0xf40e35855771202a,0x106aa07032bbd1b8,0x19a4c116b8d2d0c8,0x1e376c085141ab53,
0x2748774cdf8eeb99,0x34b0bcb5e19b48a8,0x391c0cb3c5c95a63,0x4ed8aa4ae3418acb,0x5b9cca4f7763e373,
0x682e6ff3d6b2b8a3,0x748f82ee5defb2fc,0x78a5636f43172f60,0x84c87814a1f0ab72,0x8cc702081a6439ec,
0x90befffa23631e28,0xa4506cebde82bde9,0xbef9a3f7b2c67915,0xc67178f2e372532b,0xca273eceea26619c,
0xd186b8c721c0c207,0xeada7dd6cde0eb1e,0xf57d4f7fee6ed178,0x06f067aa72176fba,0x0a637dc5a2c898a6,
0x113f9804bef90dae,0x1b710b35131c471b,0x28db77f523047d84,0x32caab7b40c72493,0x3c9ebe0a15c9bebc,
0x431d67c49c100d4c,0x4cc5d4becb3e42b6,0x597f299cfc657e2a,0x5fcb6fab3ad6faec,0x6c44198c4a475817];

fn sha512_block(h: &mut [u64; 8], b: &[u8]) {
    let mut w = [0u64; 80];
    for i in 0..16 { let mut x = [0u8; 8]; x.copy_from_slice(&b[8*i..8*i+8]); w[i] = u64::from_be_bytes(x); }
    for i in 16..80 {
        let s0 = w[i-15].rotate_right(1) ^ w[i-15].rotate_right(8) ^ (w[i-15] >> 7);
        let s1 = w[i-2].rotate_right(19) ^ w[i-2].rotate_right(61) ^ (w[i-2] >> 6);
        w[i] = w[i-16].wrapping_add(s0).wrapping_add(w[i-7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}

const IV512: [u64; 8] = [0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,
    0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179];

/// Finish a SHA-512 whose state `h` has absorbed `done` bytes (a multiple of 128), with tail `m`.
fn sha512_finish(mut h: [u64; 8], done: usize, m: &[u8]) -> [u8; 64] {
    let mut it = m.chunks_exact(128);
    for b in &mut it { sha512_block(&mut h, b); }
    let r = it.remainder();
    let mut tail = [0u8; 256];
    tail[..r.len()].copy_from_slice(r);
    tail[r.len()] = 0x80;
    let n = if r.len() < 112 { 128 } else { 256 };
    tail[n-16..n].copy_from_slice(&(((done + m.len()) as u128) * 8).to_be_bytes());
    for b in tail[..n].chunks_exact(128) { sha512_block(&mut h, b); }
    let mut o = [0u8; 64];
    for i in 0..8 { o[8*i..8*i+8].copy_from_slice(&h[i].to_be_bytes()); }
    o
}

pub fn sha512(m: &[u8]) -> [u8; 64] { sha512_finish(IV512, 0, m) }

/// HMAC-SHA512 with the two key blocks already absorbed.
pub struct Hmac512 { inner: [u64; 8], outer: [u64; 8] }
impl Hmac512 {
    pub fn new(key: &[u8]) -> Self {
        let mut k = [0u8; 128];
        if key.len() > 128 { k[..64].copy_from_slice(&sha512(key)); } else { k[..key.len()].copy_from_slice(key); }
        let (mut inner, mut outer) = (IV512, IV512);
        sha512_block(&mut inner, &k.map(|b| b ^ 0x36));
        sha512_block(&mut outer, &k.map(|b| b ^ 0x5c));
        Hmac512 { inner, outer }
    }
    pub fn mac(&self, m: &[u8]) -> [u8; 64] {
        let i = sha512_finish(self.inner, 128, m);
        sha512_finish(self.outer, 128, &i)
    }
}
pub fn hmac512(key: &[u8], m: &[u8]) -> [u8; 64] { Hmac512::new(key).mac(m) }

pub fn hmac256(key: &[u8], m: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 { k[..32].copy_from_slice(&sha256(key)); } else { k[..key.len()].copy_from_slice(key); }
    let mut a: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    a.extend_from_slice(m);
    let i = sha256(&a);
    let mut b: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    b.extend_from_slice(&i);
    sha256(&b)
}

/// PBKDF2-HMAC-SHA512 with a 64-byte (one block) output.
pub fn pbkdf2_512(password: &[u8], salt: &[u8], rounds: u32) -> [u8; 64] {
    let h = Hmac512::new(password);
    let mut s = salt.to_vec();
    s.extend_from_slice(&[0, 0, 0, 1]);
    let mut u = h.mac(&s);
    let mut t = u;
    for _ in 1..rounds {
        u = h.mac(&u);
        for i in 0..64 { t[i] ^= u[i]; }
    }
    t
}

pub fn ripemd160(m: &[u8]) -> [u8; 20] {
    const R1: [usize; 80] = [0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
        3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13];
    const R2: [usize; 80] = [5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
        15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11];
    const S1: [u32; 80] = [11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
        11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6];
    const S2: [u32; 80] = [8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
        9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11];
    const K1: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const K2: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j { 0 => x ^ y ^ z, 1 => (x & y) | (!x & z), 2 => (x | !y) ^ z, 3 => (x & z) | (y & !z), _ => x ^ (y | !z) }
    }
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 { p.push(0); }
    p.extend_from_slice(&((m.len() as u64) * 8).to_le_bytes());
    for b in p.chunks_exact(64) {
        let mut x = [0u32; 16];
        for i in 0..16 { x[i] = u32::from_le_bytes([b[4*i], b[4*i+1], b[4*i+2], b[4*i+3]]); }
        let (mut a, mut c) = (h, h);
        for j in 0..80 {
            let t = a[0].wrapping_add(f(j/16, a[1], a[2], a[3])).wrapping_add(x[R1[j]]).wrapping_add(K1[j/16])
                .rotate_left(S1[j]).wrapping_add(a[4]);
            a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
            let t = c[0].wrapping_add(f(4 - j/16, c[1], c[2], c[3])).wrapping_add(x[R2[j]]).wrapping_add(K2[j/16])
                .rotate_left(S2[j]).wrapping_add(c[4]);
            c = [c[4], t, c[1], c[2].rotate_left(10), c[3]];
        }
        let t = h[1].wrapping_add(a[2]).wrapping_add(c[3]);
        h[1] = h[2].wrapping_add(a[3]).wrapping_add(c[4]);
        h[2] = h[3].wrapping_add(a[4]).wrapping_add(c[0]);
        h[3] = h[4].wrapping_add(a[0]).wrapping_add(c[1]);
        h[4] = h[0].wrapping_add(a[1]).wrapping_add(c[2]);
        h[0] = t;
    }
    let mut o = [0u8; 20];
    for i in 0..5 { o[4*i..4*i+4].copy_from_slice(&h[i].to_le_bytes()); }
    o
}
pub fn hash160(m: &[u8]) -> [u8; 20] { ripemd160(&sha256(m)) }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect()
}
