//! No input crashes or hangs (C22).
use crate::common::*;
use kms::crypto::ripemd;

fn follow_prv(x: &XPrv) -> usize {
    let mut n = 0;
    n += format!("{:?}{:#?}", x, x).len();
    n += x.to_bytes().len();
    for pf in LIB_STD { n += x.to_string(pf).len(); n += x.to_extended_key(pf).to_string().len(); }
    for i in [0, HARD - 1, HARD, u32::MAX] { n += x.derive_child(ChildNumber(i)).is_ok() as usize; }
    n += x.clone().derive_from_path(&path_of(&[HARD, 5])).is_ok() as usize;
    n += (x == x) as usize + kms::ecdsa_sign(x.private_key(), &[7; 32]).is_ok() as usize;
    n + follow_pub(&x.public_key())
}
fn follow_pub(x: &XPub) -> usize {
    let mut n = format!("{:?}{:#?}", x, x).len() + x.to_bytes().len() + x.fingerprint().len();
    for pf in LIB_STD { n += x.to_string(pf).len(); n += x.to_extended_key(pf).to_string().len(); }
    for i in [0, HARD - 1, HARD, u32::MAX] { n += x.derive_child(ChildNumber(i)).is_ok() as usize; }
    n + x.clone().derive_from_path(&path_of(&[1, HARD])).is_ok() as usize
}
fn follow_mnemonic(m: &Mnemonic) -> usize {
    let mut n = format!("{} {:?} {:x} {:#X} {:>400}", m, m, m, m, m).len() + m.as_bytes().len() + m.entropy().len();
    n += m.clone().into_phrase().len() + String::from(m.clone()).len();
    n
}
/// Every operation that takes text; the result counts what was accepted.
fn texts(s: &str, full: bool) -> [bool; 13] {
    let mut ok = [false; 13];
    for (i, l) in LANGS.iter().enumerate() {
        if let Ok(m) = Mnemonic::from_phrase(s, lang(*l)) { ok[i] = true; follow_mnemonic(&m); }
        ok[2 + i] = Mnemonic::validate(s, lang(*l)).is_ok();
        ok[4] |= lang(*l).wordmap().get_bits(s).is_ok();
        ok[5] |= !lang(*l).wordlist().get_words_by_prefix(s).is_empty();
    }
    ok[6] = Language::from_phrase(s).is_some();
    ok[7] = Language::from_language_code(s).is_some();
    if let Ok(t) = MnemonicType::for_phrase(s) { ok[8] = true; let _ = format!("{} {:?} {}", t, t, t.total_bits() + t.entropy_bits() + t.word_count() + t.checksum_bits() as usize); }
    if let Ok(p) = s.parse::<DerivationPath>() {
        ok[9] = true;
        let _ = format!("{} {:?} {:>40}", p, p, p);
        let mut q = p.clone();
        q.extend(p.iter());
        q.push(ChildNumber(0));
        let _ = (q.len(), q.is_empty(), q.as_ref().len(), q.iter().count(), q.parent().map(|x| x.len()), q.into_iter().count(), p == p);
        if full && p.len() < 5000 { let _ = XPrv::new_from_path([7u8; 32], &p).map(|x| x.to_bytes()); }
    }
    if let Ok(n) = s.parse::<ChildNumber>() { ok[10] = true; let _ = format!("{} {:?}", n, n); let _ = (n.index(), n.is_hardened(), n.to_bytes()); }
    if let Ok(e) = s.parse::<ExtendedKey>() {
        let _ = (e.to_string().len(), e.prefix.to_string(), e.prefix.is_private());
        let mut b = [0u8; ExtendedKey::MAX_BASE58_SIZE];
        let _ = e.write_base58(&mut b).map(|t| t.len());
        let _ = (XPrv::try_from(e.clone()).is_ok(), XPub::try_from(e).is_ok());
    }
    if let Ok(x) = s.parse::<XPrv>() { ok[11] = true; follow_prv(&x); }
    if let Ok(x) = s.parse::<XPub>() { ok[12] = true; follow_pub(&x); }
    bytes(s.as_bytes());
    ok
}
fn secret() -> libsecp256k1::SecretKey { libsecp256k1::SecretKey::parse(&[9; 32]).unwrap() }
fn bytes(b: &[u8]) -> usize {
    let mut n = 0;
    for l in LANGS { if let Ok(m) = Mnemonic::from_entropy(b, lang(l)) { n += 1 + follow_mnemonic(&m); } }
    if let Ok(x) = XPrv::new(b) { n += follow_prv(&x); }
    n += XPrv::new_from_path(b, &path_of(&[HARD, 0])).is_ok() as usize;
    if let Ok(p) = Prefix::try_from(b) { n += format!("{} {:?} {:?}", p, p, p.as_str()).len() + p.to_bytes().len() + p.is_public() as usize; }
    n += kms::ecdsa_sign(&secret(), b).is_ok() as usize;
    n + ripemd(b).len()
}
const ALPHABET: [&str; 26] = ["a", " ", "m", "/", "'", "0", "9", "-", "+", "1", "\0", "\u{e9}", "\u{301}", "\u{7684}", "\u{3000}", "\u{1f600}", "\n", "x", "z", "E", "\u{feff}", "\u{fdfa}", "H", "\u{d7a3}", ".", "\u{10ffff}"];

fn valid_texts() -> Vec<String> {
    let mut v = vec![];
    for l in LANGS { for n in [16, 32] { v.push(m39::encode(l, &background(4, n)).unwrap()); } v.push(m39::encode(l, &background(0, 16)).unwrap()); }
    let p = m32::master(&fill(1, 64)).unwrap().child(HARD).unwrap();
    for s in STD { v.push(if s.2 { p.text(s.1) } else { p.neuter().text(s.1) }); }
    for s in ["m/44'/60'/0'/0/2147483647", "m", "2147483647'", "en", "zh-cn", "abandon", "xprv", "\u{7684}"] { v.push(s.into()); }
    v
}
pub fn c22(r: &mut Run) {
    let depth = r.q(4, 5);
    r.section("every short text", format!("all strings of up to {} characters over {} letters, signs, digits, spaces, control, combining, wide and 4-byte characters, through all 13 text operations and the byte operations", depth, ALPHABET.len()), |c| {
        let n = c.pick(depth + 1);
        // the last two characters are swept inside one execution
        let head = n.saturating_sub(2);
        let mut s = String::new();
        for _ in 0..head { s.push_str(c.of(&ALPHABET)); }
        let sweep = |c: &mut Ch, t: &str| { let ok = texts(t, true); if ok[1..].iter().any(|x| *x) { c.fact("some operation accepted it"); } else { c.fact("refused everywhere"); } c.steps(19); c.state(&ok); };
        match n - head {
            0 => sweep(c, &s),
            1 => for a in ALPHABET { let t = format!("{}{}", s, a); sweep(c, &t); },
            _ => for a in ALPHABET { for b in ALPHABET { let t = format!("{}{}{}", s, a, b); sweep(c, &t); } },
        }
        Ok(())
    });
    let contexts = r.q(3, 7);
    r.section("every character", "every Unicode scalar value alone and inside a phrase, a path, a key text, a child number and a language code", |c| {
        let b = c.pick(0x110000 / 256) as u32;
        let key = m32::master(&fill(1, 64)).unwrap().text(STD[0].1);
        for u in b * 256..b * 256 + 256 {
            if let Some(ch) = char::from_u32(u) {
                let a = texts(&ch.to_string(), false);
                for s in [format!("abandon {} about", ch), format!("m/{}/1", ch), format!("{}{}", &key[..20], ch), format!("1{}", ch), format!("m{}", ch), format!("e{}", ch), format!("ab{}", ch)].into_iter().take(contexts) { texts(&s, false); c.steps(19); }
                c.steps(19);
                c.state(&a);
            }
        }
        Ok(())
    });
    r.section("every passphrase character", "every Unicode scalar value in a passphrase, 1024 to a passphrase, in both orders", |c| {
        let b = c.pick(0x110000 / 1024) as u32;
        let rev = c.flag();
        let mut s: Vec<char> = (b * 1024..b * 1024 + 1024).filter_map(char::from_u32).collect();
        if rev { s.reverse(); }
        let s: String = s.into_iter().collect();
        let m = Mnemonic::from_entropy(&[3; 16], Language::English).need("mnemonic")?;
        let x = Seed::new(&m, &s);
        c.state(x.as_bytes());
        c.step();
        Ok(())
    });
    let vt = valid_texts();
    let subs: Vec<&str> = r.q(ALPHABET[..14].to_vec(), ALPHABET.to_vec());
    r.section("damaged valid texts", format!("{} valid phrases, keys, paths, numbers and codes x every position x {{cut off, drop, replace by or insert each of {} characters, double the rest, swap halves}}", vt.len(), subs.len()), |c| {
        let s: Vec<char> = c.of(&vt).chars().collect();
        let i = c.pick(s.len() + 1);
        let (a, b): (String, String) = (s[..i].iter().collect(), s[i..].iter().collect());
        let b1: String = b.chars().skip(1).collect();
        let mut all = vec![a.clone(), b.clone(), format!("{}{}", a, b1), format!("{}{}{}", a, b, b), format!("{}{}", b, a), format!("{}{}", a.to_uppercase(), b)];
        for ch in &subs { all.push(format!("{}{}{}", a, ch, b)); all.push(format!("{}{}{}", a, ch, b1)); }
        for t in &all { let ok = texts(t, true); c.state(&ok); c.steps(19); }
        Ok(())
    });
    let max = r.q(18, 22);
    let units = ["a", " ", "abandon ", "\u{7684} ", "1", "z", "/", "m/", "/0", "/0'", "0", "9", "\u{301}", "\u{323}\u{301}", "\u{fdfa}", "\u{ac00}", "\0", "'", "\u{3000}", "-", "é", "xprv", "2147483647/"];
    r.section("huge texts", format!("{} units repeated 2^k-1, 2^k and 2^k+1 times for k up to {}, bare and after \"m\", \"m/0\" and a valid phrase", units.len(), max), |c| {
        let u = *c.of(&units);
        let k = 4 + c.pick(max - 3) as u32;
        let d = c.pick(3);
        let n = (1usize << k) + d - 1;
        let pre = *c.of(&["", "m", "m/0", "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about "]);
        if k > 16 && (d != 1) { return Ok(()); }
        let s = format!("{}{}", pre, u.repeat(n));
        c.note(|| format!("{:?} + {:?} x {}", pre, u, n));
        let ok = texts(&s, true);
        c.state(&ok);
        c.steps(19);
        if pre.is_empty() && s.len() < 1 << 20 {
            let m = Mnemonic::from_entropy(&[3; 16], Language::English).need("mnemonic")?;
            c.state(Seed::new(&m, &s).as_bytes());
            c.step();
        }
        Ok(())
    });
    let max = r.q(4200, 70_000);
    r.section("bytes of every length", format!("byte strings of every length 0..={} and 2^k-1..2^k+1 up to 2^24 in 4 patterns, and all strings of up to 2 bytes, through entropy, seed, prefix, signing and hashing", max), |c| {
        match c.pick(3) {
            0 => {
                let b = c.pick(max / 50 + 1);
                for n in b * 50..b * 50 + 50 { for t in 0..4 { let k = bytes(&background(t, n)); c.state(&(k, n)); c.steps(6); } }
            }
            1 => {
                let k = 10 + c.pick(15);
                let t = c.pick(4);
                for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] { let mut v = background(t % 2, n); v[n / 2] ^= t as u8; bytes(&v); c.steps(6); }
            }
            _ => {
                let a = c.pick(257);
                if a == 256 { bytes(&[]); for x in 0..=255u8 { bytes(&[x]); c.steps(6); } }
                else { for x in 0..=255u8 { bytes(&[a as u8, x]); c.steps(6); } }
            }
        }
        Ok(())
    });
    r.section("four-byte strings", format!("Prefix from every 4-byte string with the first two bytes free and the rest in {{0,128,255{}}}, and 32-byte messages and seeds with every byte value at every position", r.q("", ",1,2,64,127,192")), {
        let lows: Vec<u8> = r.q(vec![0, 128, 255], vec![0, 1, 2, 64, 127, 128, 192, 255]);
        move |c| {
            if c.flag() {
                let i = c.pick(32);
                for v in 0..=255u8 { let mut b = [0u8; 32]; b[i] = v; bytes(&b); let mut b = [0xffu8; 32]; b[i] = v; bytes(&b); c.steps(12); }
            } else {
                let a = c.pick(256) as u8;
                for b in 0..=255u8 { for x in &lows { for y in &lows {
                    let k = [a, b, *x, *y];
                    if let Ok(p) = Prefix::from_bytes(k) { let _ = (p.as_str().len(), p.is_public(), p.is_private(), format!("{} {:?}", p, p)); c.fact("a prefix"); } else { c.fact("no prefix"); }
                    let _ = (Prefix::try_from(&k[..]).is_ok(), Prefix::try_from(u32::from_be_bytes(k)).is_ok());
                    c.steps(3);
                } } }
            }
            Ok(())
        }
    });
    r.section("checksummed payloads", "Base58Check of payloads: every length 0..=200 in 5 patterns and under every standard version; every byte value at every position of two valid keys", |c| {
        if c.flag() {
            let n = c.pick(201);
            for t in 0..5 {
                let mut v = background(t, n);
                let ok = texts(&refmodel::b58::encode_check(&v), true);
                c.state(&(ok, n));
                for s in STD { for i in 0..n.min(4) { v[i] = s.1.to_be_bytes()[i]; } let ok = texts(&refmodel::b58::encode_check(&v), true); c.state(&ok); c.steps(19); }
                c.steps(19);
            }
        } else {
            let p = m32::master(&fill(1, 64)).unwrap().child(HARD).unwrap();
            let raw = if c.flag() { p.payload(STD.iter().find(|s| s.0 == "xprv").unwrap().1) } else { p.neuter().payload(STD.iter().find(|s| s.0 == "xpub").unwrap().1) };
            let i = c.pick(78);
            for v in 0..=255u8 {
                let mut b = raw.to_vec();
                b[i] = v;
                let t = refmodel::b58::encode_check(&b);
                let e = t.parse::<ExtendedKey>();
                if let Ok(e) = e { let _ = e.to_string(); let _ = XPrv::try_from(e.clone()).map(|x| follow_prv(&x)); let _ = XPub::try_from(e).map(|x| follow_pub(&x)); c.fact("a record"); } else { c.fact("refused"); }
                c.steps(3);
            }
        }
        Ok(())
    });
    r.section("any extended-key record", "records built from fields directly (any prefix, attributes and key bytes, also ones no text could hold): conversion, printing and derivation", |c| {
        let pf = *c.of(&LIB_STD);
        let depth = *c.of(&depths());
        let fp = *c.of(&fps());
        let cn = *c.of(&[0, 1, HARD, u32::MAX]);
        let tag = *c.of(&[0u8, 1, 2, 3, 4, 5, 127, 128, 255]);
        for body in [[0u8; 32], [0xff; 32], u256(1), n_plus(0), n_minus(1), fill32(1), m32::point(&fill32(2))[1..].try_into().unwrap()] {
            let mut k = [tag; 33];
            k[1..].copy_from_slice(&body);
            let e = ExtendedKey { prefix: pf, attrs: ExtendedKeyAttrs { depth, parent_fingerprint: fp, child_number: ChildNumber(cn), chain_code: [depth; 32] }, key_bytes: k };
            let t = e.to_string();
            let mut b = [0xffu8; ExtendedKey::MAX_BASE58_SIZE];
            let _ = e.write_base58(&mut b).map(|t| t.len());
            let _ = t.parse::<ExtendedKey>().is_ok();
            let _ = XPrv::try_from(e.clone()).map(|x| follow_prv(&x));
            let _ = XPub::try_from(e).map(|x| follow_pub(&x));
            c.steps(5);
        }
        Ok(())
    });
}
