//! Base58Check.
use crate::hash::sha256;
pub const ALPHA: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn encode(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut d: Vec<u8> = vec![]; // base-58 digits, little endian
    for &x in b {
        let mut c = x as u32;
        for y in d.iter_mut() { c += (*y as u32) << 8; *y = (c % 58) as u8; c /= 58; }
        while c > 0 { d.push((c % 58) as u8); c /= 58; }
    }
    let mut s = "1".repeat(zeros);
    s.extend(d.iter().rev().map(|x| ALPHA[*x as usize] as char));
    s
}
pub fn decode(s: &str) -> Option<Vec<u8>> {
    let zeros = s.bytes().take_while(|x| *x == b'1').count();
    let mut d: Vec<u8> = vec![];
    for ch in s.bytes() {
        let mut c = ALPHA.iter().position(|a| *a == ch)? as u32;
        for y in d.iter_mut() { c += *y as u32 * 58; *y = c as u8; c >>= 8; }
        while c > 0 { d.push(c as u8); c >>= 8; }
    }
    let mut o = vec![0u8; zeros];
    o.extend(d.iter().rev());
    Some(o)
}
pub fn check(b: &[u8]) -> [u8; 4] { let h = sha256(&sha256(b)); [h[0], h[1], h[2], h[3]] }
pub fn encode_check(b: &[u8]) -> String { let mut v = b.to_vec(); v.extend_from_slice(&check(b)); encode(&v) }
pub fn decode_check(s: &str) -> Option<Vec<u8>> {
    let mut v = decode(s)?;
    if v.len() < 4 { return None; }
    let c = v.split_off(v.len() - 4);
    if check(&v)[..] == c[..] { Some(v) } else { None }
}
