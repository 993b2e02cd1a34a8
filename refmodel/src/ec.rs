//! secp256k1 arithmetic on 256-bit integers, straight from SEC 2; RFC 6979 signing.
use crate::hash::hmac256;
use std::sync::OnceLock;

/// Little-endian limbs.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct U256(pub [u64; 4]);

pub const P: U256 = U256([0xFFFFFFFEFFFFFC2F, !0, !0, !0]);
pub const N: U256 = U256([0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF]);
const CP: U256 = U256([0x1000003D1, 0, 0, 0]); // 2^256 - P
const CN: U256 = U256([0x402DA1732FC9BEBF, 0x4551231950B75FC4, 1, 0]); // 2^256 - N
pub const ZERO: U256 = U256([0; 4]);
pub const ONE: U256 = U256([1, 0, 0, 0]);

impl U256 {
    pub fn from_be(b: &[u8; 32]) -> U256 {
        let mut l = [0u64; 4];
        for i in 0..4 { let mut x = [0u8; 8]; x.copy_from_slice(&b[8*i..8*i+8]); l[3-i] = u64::from_be_bytes(x); }
        U256(l)
    }
    pub fn to_be(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 { o[8*i..8*i+8].copy_from_slice(&self.0[3-i].to_be_bytes()); }
        o
    }
    pub fn from_u64(x: u64) -> U256 { U256([x, 0, 0, 0]) }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn bit(&self, i: usize) -> bool { (self.0[i / 64] >> (i % 64)) & 1 == 1 }
    pub fn lt(&self, o: &U256) -> bool {
        for i in (0..4).rev() { if self.0[i] != o.0[i] { return self.0[i] < o.0[i]; } }
        false
    }
    pub fn add_carry(&self, o: &U256) -> (U256, bool) {
        let mut r = [0u64; 4]; let mut c = 0u128;
        for i in 0..4 { let t = self.0[i] as u128 + o.0[i] as u128 + c; r[i] = t as u64; c = t >> 64; }
        (U256(r), c != 0)
    }
    pub fn sub_borrow(&self, o: &U256) -> (U256, bool) {
        let mut r = [0u64; 4]; let mut b = 0u64;
        for i in 0..4 {
            let (t, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (t, b2) = t.overflowing_sub(b);
            r[i] = t; b = (b1 || b2) as u64;
        }
        (U256(r), b != 0)
    }
    pub fn shr1(&self) -> U256 {
        let mut r = [0u64; 4];
        for i in 0..4 { r[i] = (self.0[i] >> 1) | if i < 3 { self.0[i + 1] << 63 } else { 0 }; }
        U256(r)
    }
}

/// Arithmetic modulo m = 2^256 - c.
#[derive(Clone, Copy)]
pub struct Mod { pub m: U256, c: U256 }
pub const FP: Mod = Mod { m: P, c: CP };
pub const FN: Mod = Mod { m: N, c: CN };

impl Mod {
    pub fn reduce(&self, a: &U256) -> U256 { if a.lt(&self.m) { *a } else { a.sub_borrow(&self.m).0 } }
    pub fn add(&self, a: &U256, b: &U256) -> U256 {
        let (r, c) = a.add_carry(b);
        if c { r.sub_borrow(&self.m).0 } else { self.reduce(&r) }
    }
    pub fn neg(&self, a: &U256) -> U256 { if a.is_zero() { *a } else { self.m.sub_borrow(a).0 } }
    pub fn sub(&self, a: &U256, b: &U256) -> U256 {
        let (r, br) = a.sub_borrow(b);
        if br { r.add_carry(&self.m).0 } else { r }
    }
    pub fn mul(&self, a: &U256, b: &U256) -> U256 {
        let mut t = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let x = a.0[i] as u128 * b.0[j] as u128 + t[i + j] as u128 + c;
                t[i + j] = x as u64; c = x >> 64;
            }
            t[i + 4] = c as u64;
        }
        // fold the high half: hi*2^256 = hi*c (mod m), until it is zero
        loop {
            let hi = [t[4], t[5], t[6], t[7]];
            if hi == [0; 4] { break; }
            let mut r = [t[0], t[1], t[2], t[3], 0, 0, 0, 0];
            for i in 0..4 {
                let mut c = 0u128;
                for j in 0..(8 - i) {
                    let cj = if j < 4 { self.c.0[j] } else { 0 };
                    let x = hi[i] as u128 * cj as u128 + r[i + j] as u128 + c;
                    r[i + j] = x as u64; c = x >> 64;
                    if j >= 3 && c == 0 { break; }
                }
            }
            t = r;
        }
        self.reduce(&U256([t[0], t[1], t[2], t[3]]))
    }
    pub fn sqr(&self, a: &U256) -> U256 { self.mul(a, a) }
    pub fn pow(&self, a: &U256, e: &U256) -> U256 {
        let mut r = ONE;
        for i in (0..256).rev() { r = self.sqr(&r); if e.bit(i) { r = self.mul(&r, a); } }
        r
    }
    pub fn inv(&self, a: &U256) -> U256 { self.pow(a, &self.m.sub_borrow(&U256::from_u64(2)).0) }
}

/// Affine point, None = infinity.
pub type Pt = Option<(U256, U256)>;
#[derive(Clone, Copy)]
struct Jac { x: U256, y: U256, z: U256 } // z = 0: infinity

pub const G: (U256, U256) = (
    U256([0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC]),
    U256([0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465]),
);

const INF: Jac = Jac { x: ONE, y: ONE, z: ZERO };
fn jac(p: &Pt) -> Jac { match p { None => INF, Some((x, y)) => Jac { x: *x, y: *y, z: ONE } } }
fn aff(j: &Jac) -> Pt {
    if j.z.is_zero() { return None; }
    let zi = FP.inv(&j.z); let z2 = FP.sqr(&zi);
    Some((FP.mul(&j.x, &z2), FP.mul(&j.y, &FP.mul(&z2, &zi))))
}
fn dbl(a: &Jac) -> Jac {
    if a.z.is_zero() || a.y.is_zero() { return INF; }
    let y2 = FP.sqr(&a.y);
    let s = { let t = FP.mul(&a.x, &y2); let t = FP.add(&t, &t); FP.add(&t, &t) };
    let m = { let t = FP.sqr(&a.x); FP.add(&FP.add(&t, &t), &t) };
    let x = FP.sub(&FP.sqr(&m), &FP.add(&s, &s));
    let y4 = { let t = FP.sqr(&y2); let t = FP.add(&t, &t); let t = FP.add(&t, &t); FP.add(&t, &t) };
    let y = FP.sub(&FP.mul(&m, &FP.sub(&s, &x)), &y4);
    let z = { let t = FP.mul(&a.y, &a.z); FP.add(&t, &t) };
    Jac { x, y, z }
}
fn addj(a: &Jac, b: &Jac) -> Jac {
    if a.z.is_zero() { return *b; }
    if b.z.is_zero() { return *a; }
    let (za2, zb2) = (FP.sqr(&a.z), FP.sqr(&b.z));
    let (u1, u2) = (FP.mul(&a.x, &zb2), FP.mul(&b.x, &za2));
    let (s1, s2) = (FP.mul(&a.y, &FP.mul(&zb2, &b.z)), FP.mul(&b.y, &FP.mul(&za2, &a.z)));
    if u1 == u2 { return if s1 == s2 { dbl(a) } else { INF }; }
    let (h, r) = (FP.sub(&u2, &u1), FP.sub(&s2, &s1));
    let h2 = FP.sqr(&h); let h3 = FP.mul(&h2, &h); let v = FP.mul(&u1, &h2);
    let x = FP.sub(&FP.sub(&FP.sqr(&r), &h3), &FP.add(&v, &v));
    let y = FP.sub(&FP.mul(&r, &FP.sub(&v, &x)), &FP.mul(&s1, &h3));
    Jac { x, y, z: FP.mul(&h, &FP.mul(&a.z, &b.z)) }
}
pub fn add(a: &Pt, b: &Pt) -> Pt { aff(&addj(&jac(a), &jac(b))) }
pub fn mul(k: &U256, p: &Pt) -> Pt {
    let j = jac(p); let mut r = INF;
    for i in (0..256).rev() { r = dbl(&r); if k.bit(i) { r = addj(&r, &j); } }
    aff(&r)
}
fn table() -> &'static Vec<[Jac; 16]> {
    static T: OnceLock<Vec<[Jac; 16]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut base = jac(&Some(G)); let mut v = vec![];
        for _ in 0..64 {
            let mut row = [INF; 16];
            for i in 1..16 { row[i] = addj(&row[i - 1], &base); }
            base = addj(&row[15], &base);
            // keep the table affine (z = 1) so additions stay cheap to reason about
            v.push(row.map(|p| jac(&aff(&p))));
        }
        v
    })
}
pub fn mul_g(k: &U256) -> Pt {
    let t = table(); let mut r = INF;
    for i in 0..64 { let nib = (k.0[i / 16] >> (4 * (i % 16))) & 15; r = addj(&r, &t[i][nib as usize]); }
    aff(&r)
}
pub fn on_curve(x: &U256, y: &U256) -> bool {
    FP.sqr(y) == FP.add(&FP.mul(&FP.sqr(x), x), &U256::from_u64(7))
}
/// The point with abscissa x and the given parity of y.
pub fn lift_x(x: &U256, odd: bool) -> Pt {
    if !x.lt(&P) { return None; }
    let rhs = FP.add(&FP.mul(&FP.sqr(x), x), &U256::from_u64(7));
    let e = P.add_carry(&ONE).0.shr1().shr1(); // (p+1)/4, p+1 does not overflow
    let y = FP.pow(&rhs, &e);
    if FP.sqr(&y) != rhs { return None; }
    let y = if y.bit(0) == odd { y } else { FP.neg(&y) };
    Some((*x, y))
}
pub fn compress(p: &(U256, U256)) -> [u8; 33] {
    let mut o = [0u8; 33];
    o[0] = if p.1.bit(0) { 3 } else { 2 };
    o[1..].copy_from_slice(&p.0.to_be());
    o
}
pub fn decompress(b: &[u8; 33]) -> Pt {
    if b[0] != 2 && b[0] != 3 { return None; }
    let mut x = [0u8; 32]; x.copy_from_slice(&b[1..]);
    lift_x(&U256::from_be(&x), b[0] == 3)
}
pub fn valid_scalar(b: &[u8; 32]) -> Option<U256> {
    let k = U256::from_be(b);
    if k.is_zero() || !k.lt(&N) { None } else { Some(k) }
}
pub fn half_n() -> U256 { N.shr1() }

/// RFC 6979 / low-s / recoverable signature of a 32-byte digest.
pub fn sign(key: &U256, digest: &[u8; 32]) -> ([u8; 64], u8) {
    let z = FN.reduce(&U256::from_be(digest));
    let (x, h) = (key.to_be(), z.to_be()); // int2octets, bits2octets
    let (mut v, mut k) = ([1u8; 32], [0u8; 32]);
    for b in [0u8, 1] {
        let mut m = v.to_vec(); m.push(b); m.extend_from_slice(&x); m.extend_from_slice(&h);
        k = hmac256(&k, &m); v = hmac256(&k, &v);
    }
    loop {
        v = hmac256(&k, &v);
        let nonce = U256::from_be(&v);
        if !nonce.is_zero() && nonce.lt(&N) {
            let r0 = mul_g(&nonce).unwrap();
            let r = FN.reduce(&r0.0);
            let s = FN.mul(&FN.inv(&nonce), &FN.add(&z, &FN.mul(&r, key)));
            if !r.is_zero() && !s.is_zero() {
                let mut rec = (r0.1.bit(0) as u8) | if r0.0.lt(&N) { 0 } else { 2 };
                let s = if half_n().lt(&s) { rec ^= 1; FN.neg(&s) } else { s };
                let mut o = [0u8; 64];
                o[..32].copy_from_slice(&r.to_be()); o[32..].copy_from_slice(&s.to_be());
                return (o, rec);
            }
        }
        let mut m = v.to_vec(); m.push(0);
        k = hmac256(&k, &m); v = hmac256(&k, &v);
    }
}
/// Recover the public key; None if the signature is not valid.
pub fn recover(sig: &[u8; 64], rec: u8, digest: &[u8; 32]) -> Pt {
    let (mut rb, mut sb) = ([0u8; 32], [0u8; 32]);
    rb.copy_from_slice(&sig[..32]); sb.copy_from_slice(&sig[32..]);
    let (r, s) = (valid_scalar(&rb)?, valid_scalar(&sb)?);
    if rec > 3 { return None; }
    let x = if rec & 2 != 0 { let (x, c) = r.add_carry(&N); if c { return None; } x } else { r };
    let rp = lift_x(&x, rec & 1 == 1);
    rp?;
    let z = FN.reduce(&U256::from_be(digest));
    let ri = FN.inv(&r);
    let (u1, u2) = (FN.neg(&FN.mul(&z, &ri)), FN.mul(&s, &ri));
    add(&mul_g(&u1), &mul(&u2, &rp))
}
