//! BIP39 from the BIP text; NFKD from Python's unicodedata tables.
use crate::hash::{pbkdf2_512, sha256, unhex};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lang { En, Zh }
pub const LANGS: [Lang; 2] = [Lang::En, Lang::Zh];
pub const SIZES: [usize; 5] = [16, 20, 24, 28, 32];
pub const COUNTS: [usize; 5] = [12, 15, 18, 21, 24];

pub fn words(l: Lang) -> &'static [&'static str] {
    static EN: OnceLock<Vec<&'static str>> = OnceLock::new();
    static ZH: OnceLock<Vec<&'static str>> = OnceLock::new();
    match l {
        Lang::En => EN.get_or_init(|| include_str!("../data/english.txt").lines().collect()),
        Lang::Zh => ZH.get_or_init(|| include_str!("../data/chinese_simplified.txt").lines().collect()),
    }
}
/// SHA-256 of the official list files (bitcoin/bips), to pin the data this model uses.
pub fn list_digest(l: Lang) -> [u8; 32] {
    sha256(match l { Lang::En => include_bytes!("../data/english.txt"), Lang::Zh => include_bytes!("../data/chinese_simplified.txt") })
}
fn index(l: Lang) -> &'static HashMap<&'static str, u16> {
    static EN: OnceLock<HashMap<&'static str, u16>> = OnceLock::new();
    static ZH: OnceLock<HashMap<&'static str, u16>> = OnceLock::new();
    (match l { Lang::En => &EN, Lang::Zh => &ZH }).get_or_init(|| words(l).iter().enumerate().map(|(i, w)| (*w, i as u16)).collect())
}
pub fn word_index(l: Lang, w: &str) -> Option<u16> { index(l).get(w).copied() }

pub fn bits_of(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| (x >> (7 - i)) & 1 == 1)).collect() }
pub fn bytes_of(b: &[bool]) -> Vec<u8> { b.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a * 2 + *x as u8)).collect() }
pub fn groups(b: &[bool]) -> Vec<u16> { b.chunks(11).map(|c| c.iter().fold(0u16, |a, x| a * 2 + *x as u16)).collect() }
pub fn ungroup(g: &[u16]) -> Vec<bool> { g.iter().flat_map(|x| (0..11).map(move |i| (x >> (10 - i)) & 1 == 1)).collect() }

pub fn encode_idx(ent: &[u8]) -> Vec<u16> {
    let mut b = bits_of(ent);
    let cs = ent.len() * 8 / 32;
    b.extend(bits_of(&sha256(ent)).into_iter().take(cs));
    groups(&b)
}
pub fn text(l: Lang, idx: &[u16]) -> String { idx.iter().map(|i| words(l)[*i as usize]).collect::<Vec<_>>().join(" ") }
pub fn encode(l: Lang, ent: &[u8]) -> Option<String> {
    if !SIZES.contains(&ent.len()) { return None; }
    Some(text(l, &encode_idx(ent)))
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Defects { pub word: bool, pub count: Option<usize>, pub checksum: bool }
/// Verdict on a list of words: the entropy, or every defect the list has.
pub fn decode_words(l: Lang, ws: &[&str]) -> Result<Vec<u8>, Defects> {
    let idx: Vec<Option<u16>> = ws.iter().map(|w| word_index(l, w)).collect();
    let word = idx.iter().any(|i| i.is_none());
    let count = if COUNTS.contains(&ws.len()) { None } else { Some(ws.len()) };
    if word || count.is_some() { return Err(Defects { word, count, checksum: false }); }
    let idx: Vec<u16> = idx.into_iter().map(|i| i.unwrap()).collect();
    decode_idx(&idx).ok_or(Defects { word: false, count: None, checksum: true })
}
/// None: bad checksum. Only for supported counts.
pub fn decode_idx(idx: &[u16]) -> Option<Vec<u8>> {
    let b = ungroup(idx);
    let cs = b.len() / 33;
    let ent = bytes_of(&b[..b.len() - cs]);
    if bits_of(&sha256(&ent))[..cs] == b[b.len() - cs..] { Some(ent) } else { None }
}
fn white(c: char) -> bool { // Unicode White_Space
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
pub const WHITES: [u32; 25] = [9, 10, 11, 12, 13, 0x20, 0x85, 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006,
    0x2007, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000];
/// Canonical form of a phrase as typed: NFKD words joined by single spaces.
pub fn canonical(s: &str) -> String {
    s.split(white).filter(|w| !w.is_empty()).map(nfkd).collect::<Vec<_>>().join(" ")
}
pub fn import(l: Lang, s: &str) -> Result<(String, Vec<u8>), Defects> {
    let c = canonical(s);
    let ws: Vec<&str> = c.split(' ').collect();
    decode_words(l, &ws).map(|e| (c.clone(), e))
}
pub fn phrase_bytes(l: Lang, canonical: &str) -> Vec<u8> {
    match l {
        Lang::En => canonical.as_bytes().to_vec(),
        Lang::Zh => {
            static GB: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
            let gb = GB.get_or_init(|| include_str!("../data/zh_gb18030.txt").lines().map(unhex).collect());
            let mut o = vec![];
            for (i, w) in canonical.split(' ').enumerate() {
                if i > 0 { o.push(0x20); }
                o.extend_from_slice(&gb[word_index(l, w).expect("canonical phrase") as usize]);
            }
            o
        }
    }
}
pub fn seed(l: Lang, canonical: &str, pass: &str) -> [u8; 64] {
    let salt = format!("mnemonic{}", nfkd(pass));
    pbkdf2_512(&phrase_bytes(l, canonical), salt.as_bytes(), 2048)
}
struct Ucd { dec: HashMap<u32, Vec<char>>, ccc: HashMap<u32, u8> }
fn ucd() -> &'static Ucd {
    static U: OnceLock<Ucd> = OnceLock::new();
    U.get_or_init(|| {
        let h = |s: &str| u32::from_str_radix(s, 16).unwrap();
        let dec = include_str!("../data/nfkd.txt").lines().map(|l| {
            let mut it = l.split(' ');
            (h(it.next().unwrap()), it.map(|x| char::from_u32(h(x)).unwrap()).collect())
        }).collect();
        let ccc = include_str!("../data/ccc.txt").lines().map(|l| {
            let (a, b) = l.split_once(' ').unwrap();
            (h(a), b.parse().unwrap())
        }).collect();
        Ucd { dec, ccc }
    })
}
pub fn ccc(c: char) -> u8 { ucd().ccc.get(&(c as u32)).copied().unwrap_or(0) }
/// All single characters whose NFKD form is exactly `target`.
pub fn spellings(target: &str) -> Vec<char> {
    let t: Vec<char> = target.chars().collect();
    let mut v: Vec<char> = ucd().dec.iter().filter(|(c, d)| **d == t && known(**c)).map(|(c, _)| char::from_u32(*c).unwrap()).collect();
    v.sort();
    v
}
pub fn decomposing() -> Vec<char> {
    let mut v: Vec<char> = ucd().dec.keys().filter(|c| known(**c)).map(|c| char::from_u32(*c).unwrap()).collect();
    v.extend((0xac00..=0xd7a3).filter_map(char::from_u32));
    v.sort();
    v
}
/// Characters whose normalisation this model and the library's Unicode version (14.0) may judge
/// differently: those whose data was introduced in Unicode 15.0. Left out of every alphabet.
pub fn known(c: u32) -> bool { !(0x1e030..=0x1e08f).contains(&c) && !(0x1e4d0..=0x1e4ff).contains(&c) && !(0x10efd..=0x10eff).contains(&c) && !(0x11f00..=0x11f5f).contains(&c)
    && ![0x0cf3, 0x0ece, 0x11240, 0x11241, 0x13440].contains(&c) && !(0x13430..=0x1345f).contains(&c) }
pub fn nfkd(s: &str) -> String {
    let u = ucd();
    let mut v: Vec<char> = vec![];
    for c in s.chars() {
        let x = c as u32;
        if (0xac00..=0xd7a3).contains(&x) {
            let i = x - 0xac00;
            v.push(char::from_u32(0x1100 + i / 588).unwrap());
            v.push(char::from_u32(0x1161 + (i % 588) / 28).unwrap());
            if i % 28 != 0 { v.push(char::from_u32(0x11a7 + i % 28).unwrap()); }
        } else if let Some(d) = u.dec.get(&x) { v.extend(d) } else { v.push(c) }
    }
    // canonical ordering: stable sort of each run of non-starters by combining class
    let mut i = 0;
    while i < v.len() {
        if ccc(v[i]) == 0 { i += 1; continue; }
        let j = (i..v.len()).find(|j| ccc(v[*j]) == 0).unwrap_or(v.len());
        v[i..j].sort_by_key(|c| ccc(*c));
        i = j;
    }
    v.into_iter().collect()
}
