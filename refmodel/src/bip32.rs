//! BIP32 from the BIP text.
use crate::b58;
use crate::ec::{self, U256, FN};
use crate::hash::{hash160, hmac512};

pub const HARD: u32 = 0x8000_0000;
/// (name, version, private?)
pub const STD: [(&str, u32, bool); 8] = [
    ("xprv", 0x0488ade4, true), ("xpub", 0x0488b21e, false), ("tprv", 0x04358394, true), ("tpub", 0x043587cf, false),
    ("yprv", 0x049d7878, true), ("ypub", 0x049d7cb2, false), ("zprv", 0x04b2430c, true), ("zpub", 0x04b24746, false),
];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Attrs { pub depth: u8, pub fp: [u8; 4], pub cn: u32, pub cc: [u8; 32] }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prv { pub k: [u8; 32], pub a: Attrs }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pub { pub k: [u8; 33], pub a: Attrs }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Err { SeedLength, Crypto, Depth, Hardened }

pub fn split(b: &[u8; 64]) -> ([u8; 32], [u8; 32]) {
    let (mut l, mut r) = ([0u8; 32], [0u8; 32]);
    l.copy_from_slice(&b[..32]); r.copy_from_slice(&b[32..]);
    (l, r)
}
pub fn master(seed: &[u8]) -> Result<Prv, Err> {
    if ![16, 32, 64, 128].contains(&seed.len()) { return Err(Err::SeedLength); }
    let (k, cc) = split(&hmac512(b"Bitcoin seed", seed));
    ec::valid_scalar(&k).ok_or(Err::Crypto)?;
    Ok(Prv { k, a: Attrs { depth: 0, fp: [0; 4], cn: 0, cc } })
}
pub fn point(k: &[u8; 32]) -> [u8; 33] { ec::compress(&ec::mul_g(&U256::from_be(k)).unwrap()) }
pub fn fingerprint(p: &[u8; 33]) -> [u8; 4] { let h = hash160(p); [h[0], h[1], h[2], h[3]] }

/// k + t mod n as BIP32 wants it: None when t >= n or the sum is zero.
pub fn tweak_prv(k: &[u8; 32], t: &[u8; 32]) -> Option<[u8; 32]> {
    let t = U256::from_be(t);
    if !t.lt(&ec::N) { return None; }
    let s = FN.add(&U256::from_be(k), &t);
    if s.is_zero() { None } else { Some(s.to_be()) }
}
pub fn tweak_pub(p: &[u8; 33], t: &[u8; 32]) -> Option<[u8; 33]> {
    let t = U256::from_be(t);
    if !t.lt(&ec::N) { return None; }
    let q = ec::decompress(p);
    q?;
    ec::add(&ec::mul_g(&t), &q).map(|s| ec::compress(&s))
}
impl Prv {
    pub fn neuter(&self) -> Pub { Pub { k: point(&self.k), a: self.a.clone() } }
    pub fn child(&self, i: u32) -> Result<Prv, Err> {
        if self.a.depth == 255 { return Err(Err::Depth); }
        let p = point(&self.k);
        let mut m = vec![];
        if i >= HARD { m.push(0); m.extend_from_slice(&self.k); } else { m.extend_from_slice(&p); }
        m.extend_from_slice(&i.to_be_bytes());
        let (l, cc) = split(&hmac512(&self.a.cc, &m));
        let k = tweak_prv(&self.k, &l).ok_or(Err::Crypto)?;
        Ok(Prv { k, a: Attrs { depth: self.a.depth + 1, fp: fingerprint(&p), cn: i, cc } })
    }
    pub fn path(&self, p: &[u32]) -> Result<Prv, Err> { p.iter().try_fold(self.clone(), |k, i| k.child(*i)) }
    pub fn payload(&self, version: u32) -> [u8; 78] { let mut kb = [0u8; 33]; kb[1..].copy_from_slice(&self.k); payload(version, &self.a, &kb) }
    pub fn text(&self, version: u32) -> String { b58::encode_check(&self.payload(version)) }
}
impl Pub {
    pub fn child(&self, i: u32) -> Result<Pub, Err> {
        if i >= HARD { return Err(Err::Hardened); }
        if self.a.depth == 255 { return Err(Err::Depth); }
        let mut m = self.k.to_vec();
        m.extend_from_slice(&i.to_be_bytes());
        let (l, cc) = split(&hmac512(&self.a.cc, &m));
        let k = tweak_pub(&self.k, &l).ok_or(Err::Crypto)?;
        Ok(Pub { k, a: Attrs { depth: self.a.depth + 1, fp: fingerprint(&self.k), cn: i, cc } })
    }
    pub fn path(&self, p: &[u32]) -> Result<Pub, Err> { p.iter().try_fold(self.clone(), |k, i| k.child(*i)) }
    pub fn payload(&self, version: u32) -> [u8; 78] { payload(version, &self.a, &self.k) }
    pub fn text(&self, version: u32) -> String { b58::encode_check(&self.payload(version)) }
}
pub fn payload(version: u32, a: &Attrs, kb: &[u8; 33]) -> [u8; 78] {
    let mut b = [0u8; 78];
    b[..4].copy_from_slice(&version.to_be_bytes());
    b[4] = a.depth;
    b[5..9].copy_from_slice(&a.fp);
    b[9..13].copy_from_slice(&a.cn.to_be_bytes());
    b[13..45].copy_from_slice(&a.cc);
    b[45..].copy_from_slice(kb);
    b
}
/// A parsed 78-byte payload under its textual prefix.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ext { pub prefix: String, pub version: u32, pub a: Attrs, pub kb: [u8; 33] }
/// Base58Check text -> extended key record; None when the text cannot be one.
pub fn parse(s: &str) -> Option<Ext> {
    let b = b58::decode_check(s)?;
    if b.len() != 78 { return None; }
    let prefix = s.get(..4)?.to_string();
    let a = Attrs { depth: b[4], fp: b[5..9].try_into().unwrap(), cn: u32::from_be_bytes(b[9..13].try_into().unwrap()), cc: b[13..45].try_into().unwrap() };
    if a.depth == 0 && (a.fp != [0; 4] || a.cn != 0) { return None; }
    Some(Ext { prefix, version: u32::from_be_bytes(b[..4].try_into().unwrap()), a, kb: b[45..].try_into().unwrap() })
}
impl Ext {
    pub fn letters(&self) -> bool { self.prefix.bytes().all(|c| c.is_ascii_alphabetic()) }
    pub fn std(&self) -> bool { STD.iter().any(|s| s.1 == self.version) }
    pub fn is_prv(&self) -> bool { self.letters() && &self.prefix[1..] == "prv" }
    pub fn is_pub(&self) -> bool { self.letters() && &self.prefix[1..] == "pub" }
    pub fn prv(&self) -> Option<Prv> {
        if !self.is_prv() || self.kb[0] != 0 { return None; }
        let k: [u8; 32] = self.kb[1..].try_into().unwrap();
        ec::valid_scalar(&k)?;
        Some(Prv { k, a: self.a.clone() })
    }
    pub fn publ(&self) -> Option<Pub> {
        if !self.is_pub() { return None; }
        ec::decompress(&self.kb)?;
        Some(Pub { k: self.kb, a: self.a.clone() })
    }
}
/// Path text grammar: "m" ("/" digits ["'"])*, each index < 2^31.
pub fn parse_index(s: &str) -> Option<u32> {
    let (d, h) = match s.strip_suffix('\'') { Some(d) => (d, true), None => (s, false) };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let mut v: u64 = 0;
    for c in d.bytes() { v = v * 10 + (c - b'0') as u64; if v >= HARD as u64 { return None; } }
    Some(v as u32 | if h { HARD } else { 0 })
}
pub fn parse_path(s: &str) -> Option<Vec<u32>> {
    let mut it = s.split('/');
    if it.next() != Some("m") { return None; }
    it.map(parse_index).collect()
}
pub fn index_text(i: u32) -> String { if i >= HARD { format!("{}'", i - HARD) } else { format!("{}", i) } }
pub fn path_text(p: &[u32]) -> String {
    let mut s = String::from("m");
    for i in p { s.push('/'); s.push_str(&index_text(*i)); }
    s
}
