//! Extended-key text, equality, debug output, signing, fingerprints, prefixes (C16-C19, C21, C25, C27).
use crate::common::*;
use refmodel::b58;
use subtle::ConstantTimeEq;

fn pay(version: u32, a: &Attrs, kb: &[u8; 33]) -> [u8; 78] { m32::payload(version, a, kb) }
fn lib_attrs_eq(e: &ExtendedKey, w: &m32::Ext) -> Res {
    same!(e.prefix.as_str(), w.prefix.as_str(), "prefix");
    same!(e.prefix.version(), w.version, "version");
    same!(mod_attrs(&e.attrs), w.a, "attributes");
    same!(hex(&e.key_bytes), hex(&w.kb), "key bytes");
    Ok(())
}
/// Everything C16 and C17 say about one text.
pub fn parse_check(c: &mut Ch, s: &str) -> Res {
    let w = m32::parse(s);
    c.step();
    let e = s.parse::<ExtendedKey>();
    let what = clip(s);
    match (&e, &w) {
        (Ok(e), Some(w)) => {
            lib_attrs_eq(e, w).map_err(|m| format!("{:?}: {}", what, m))?;
            same!(e.to_string(), s, "{:?} printed back", what);
            let mut buf = [0xaau8; ExtendedKey::MAX_BASE58_SIZE];
            same!(e.write_base58(&mut buf), Ok(s), "{:?} written back", what);
            c.fact("a record");
        }
        (Ok(_), None) => return Err(format!("{:?} was accepted as an extended key", what)),
        (Err(e), Some(w)) => { ensure!(!w.std(), "the extended key {:?} was refused: {:?}", what, e); c.fact("unusual prefix refused"); }
        (Err(_), None) => c.fact("refused"),
    }
    let x = s.parse::<XPrv>();
    let wp = w.as_ref().and_then(|w| w.prv());
    match (&x, &wp) {
        (Ok(x), Some(p)) => { same!(as_prv(x), *p, "{:?} as a private key", what); same!(x.to_string(e.as_ref().need("record")?.prefix).as_str(), s, "{:?} printed from the private key", what); c.fact("a private key"); }
        (Ok(x), None) => return Err(format!("{:?} was accepted as the private key {:?}", what, as_prv(x))),
        (Err(e), Some(_)) => ensure!(!w.as_ref().unwrap().std(), "the private key {:?} was refused: {:?}", what, e),
        _ => {}
    }
    let y = s.parse::<XPub>();
    let wq = w.as_ref().and_then(|w| w.publ());
    match (&y, &wq) {
        (Ok(y), Some(p)) => { same!(as_pub(y), *p, "{:?} as a public key", what); same!(y.to_string(e.as_ref().need("record")?.prefix), s, "{:?} printed from the public key", what); c.fact("a public key"); }
        (Ok(y), None) => return Err(format!("{:?} was accepted as the public key {:?}", what, as_pub(y))),
        (Err(e), Some(_)) => ensure!(!w.as_ref().unwrap().std(), "the public key {:?} was refused: {:?}", what, e),
        _ => {}
    }
    // the record route agrees with the text route
    if let Ok(e) = &e {
        same!(XPrv::try_from(e.clone()).is_ok(), x.is_ok(), "{:?}: record and text as a private key", what);
        same!(XPub::try_from(e.clone()).is_ok(), y.is_ok(), "{:?}: record and text as a public key", what);
    }
    Ok(())
}
fn rekey(raw: &[u8]) -> String { b58::encode_check(raw) }

pub fn c16(r: &mut Run) {
    crate::near::sections(r, &["key texts", "key writing"]);
    let ks = keys(r.thorough);
    let ds = depths();
    r.section("contents that look like something else", "some 100 32-byte contents (texts in common notations, framed and padded data, patterns) as private key, as chain code and as both, under all 8 prefixes; fingerprints, child numbers and depths likewise", |c| {
        let ks: Vec<[u8; 32]> = looks(32).into_iter().map(|x| x.1.try_into().unwrap()).collect();
        let cc = *c.of(&ks);
        let k = match c.pick(3) { 0 => fill32(106), 1 => cc, _ => u256(1) };
        let v = U256::from_be(&k);
        if v == U256::from_u64(0) || !v.lt(&ec::N) { return Ok(()); }
        for d in [1u8, cc[31].max(1)] {
            let p = Prv { k, a: attrs(d, [cc[0], cc[1], cc[2], cc[3]], u32::from_be_bytes([cc[31], cc[30], cc[29], cc[28]]), cc) };
            let x = xprv(&p)?;
            for pf in LIB_STD {
                let t = if pf.is_private() { x.to_string(pf).as_str().to_string() } else { x.public_key().to_string(pf) };
                same!(t, if pf.is_private() { p.text(pf.version()) } else { p.neuter().text(pf.version()) }, "text of {:?} under {}", p, pf);
                let e: ExtendedKey = t.parse().need("parse")?;
                same!(e.to_string(), t, "text printed again");
                if pf.is_private() { same!(as_prv(&t.parse::<XPrv>().need("parse")?), p, "reparsed key"); ensure!(t.parse::<XPub>().is_err(), "{:?} parses as a public key", t); }
                else { same!(as_pub(&t.parse::<XPub>().need("parse")?), p.neuter(), "reparsed public key"); ensure!(t.parse::<XPrv>().is_err(), "{:?} parses as a private key", t); }
                c.steps(3);
            }
            c.state(&p);
        }
        Ok(())
    });
    r.section("private keys", format!("{} keys x {} depths x 4 chain codes x fingerprints x child numbers x 4 private prefixes", ks.len(), ds.len()), |c| {
        let k = *c.of(&ks);
        let d = *c.of(&ds);
        let cc = *c.of(&codes());
        for fp in fps() { for cn in [0u32, 1, 255, 0x7fff_ffff, HARD, u32::MAX] {
            let p = Prv { k, a: attrs(d, fp, cn, cc) };
            let x = xprv(&p)?;
            for pf in LIB_STD.iter().filter(|p| p.is_private()) {
                let t = x.to_string(*pf);
                same!(t.as_str(), p.text(pf.version()), "text of {:?} under {}", p, pf);
                ensure!(t.starts_with(pf.as_str()), "{:?} does not start with {}", t, pf);
                same!(x.to_extended_key(*pf).to_string(), t.as_str(), "record's text");
                let e: ExtendedKey = t.parse().need("parse")?;
                ensure!(e.prefix == *pf && e.prefix.version() == pf.version(), "prefix of {:?} parsed as {:?}", t.as_str(), e.prefix);
                let y: XPrv = t.parse().need("parse")?;
                same!(as_prv(&y), p, "reparsed key");
                ensure!(y == x, "reparsed key compares different: {:?}", t.as_str());
                ensure!(t.parse::<XPub>().is_err(), "{:?} parses as a public key", t.as_str());
                c.steps(4);
            }
            // the public half carries the same attributes under the public prefixes
            let w = p.neuter();
            for q in [x.public_key(), XPub::from(&x)] {
                same!(as_pub(&q), w, "public half of {:?}", p);
                for pf in LIB_STD.iter().filter(|p| p.is_public()) { same!(q.to_string(*pf), w.text(pf.version()), "text of the public half of {:?} under {}", p, pf); c.step(); }
            }
            c.state(&p);
        } }
        Ok(())
    });
    r.section("public keys", format!("{} keys x {} depths x 4 chain codes x fingerprints x child numbers x 4 public prefixes", ks.len(), ds.len()), |c| {
        let k = *c.of(&ks);
        let d = *c.of(&ds);
        let cc = *c.of(&codes());
        let pt = m32::point(&k);
        for fp in fps() { for cn in [0u32, 1, 255, 0x7fff_ffff, HARD, u32::MAX] {
            let p = Pub { k: pt, a: attrs(d, fp, cn, cc) };
            let x = xpub(&p)?;
            for pf in LIB_STD.iter().filter(|p| p.is_public()) {
                let t = x.to_string(*pf);
                same!(t, p.text(pf.version()), "text of {:?} under {}", p, pf);
                ensure!(t.starts_with(pf.as_str()), "{:?} does not start with {}", t, pf);
                same!(x.to_extended_key(*pf).to_string(), t.as_str(), "record's text");
                let e: ExtendedKey = t.parse().need("parse")?;
                ensure!(e.prefix == *pf && e.prefix.version() == pf.version(), "prefix of {:?} parsed as {:?}", t, e.prefix);
                let y: XPub = t.parse().need("parse")?;
                same!(as_pub(&y), p, "reparsed key");
                ensure!(y == x, "reparsed key compares different: {:?}", t);
                ensure!(t.parse::<XPrv>().is_err(), "{:?} parses as a private key", t);
                c.steps(4);
            }
            c.state(&p);
        } }
        Ok(())
    });
    r.section("records", "8 prefixes x extreme records: every field all-zero or all-ones (by monotony of Base58 the extremes bound every record's leading letters), every byte position x all 256 values; owned text, caller's buffer, parse", |c| {
        let pf = *c.of(&LIB_STD);
        let pos = c.pick(74 + 2);
        for v in 0..=255u8 {
            let mut raw = [0u8; 78];
            raw[..4].copy_from_slice(&pf.to_bytes());
            if pos < 74 {
                let f = fill(11, 74);
                raw[4..].copy_from_slice(&f);
                if raw[4] == 0 { raw[4] = 1; }
                raw[4 + pos] = v;
                if raw[4] == 0 { for b in &mut raw[5..13] { *b = 0; } }
            } else if pos == 74 { for b in &mut raw[13..] { *b = v; } } else { for b in &mut raw[4..] { *b = v; } if v == 0 { raw[77] = 1; } }
            let a = Attrs { depth: raw[4], fp: raw[5..9].try_into().unwrap(), cn: u32::from_be_bytes(raw[9..13].try_into().unwrap()), cc: raw[13..45].try_into().unwrap() };
            let e = ek(pf, &a, raw[45..].try_into().unwrap());
            let want = rekey(&raw);
            let mut buf = [0x7fu8; ExtendedKey::MAX_BASE58_SIZE];
            same!(e.write_base58(&mut buf).need("write_base58")?, want, "text in the caller's buffer, record {}", hex(&raw));
            let mut dirty = [0u8; ExtendedKey::MAX_BASE58_SIZE];
            same!(e.write_base58(&mut dirty).need("write_base58")?, want, "text in a second buffer");
            same!(e.to_string(), want, "owned text");
            ensure!(want.starts_with(pf.as_str()), "record {} prints without its prefix: {}", hex(&raw), want);
            parse_check(c, &want)?;
        }
        c.state(&(pf.version(), pos));
        Ok(())
    });
    let keys2 = r.q(3000usize, 60_000);
    r.section("derived keys", format!("{} derived keys, private and public, each kept in text form and parsed back", keys2), |c| {
        let i = c.pick(keys2) as u64;
        let root = m32::master(&fill(i, 32)).unwrap();
        let p = root.path(&[(i as u32) & 0x7fff_ffff, HARD + i as u32][..1 + (i % 2) as usize]).unwrap();
        for (pf, std) in LIB_STD.iter().zip(0..) {
            let _ = std;
            let t = if pf.is_private() { p.text(pf.version()) } else { p.neuter().text(pf.version()) };
            parse_check(c, &t)?;
        }
        c.state(&p);
        Ok(())
    });
    r.section("other prefixes", "every letter prefix reachable by a version on a 2^12 grid: the record prints as Base58Check under that version and parses back or is refused consistently", |c| {
        let b = c.pick(1024) as u32;
        for j in 0..1024u32 {
            let v = (b << 22) | (j << 12) | 0x5a5;
            if let Ok(pf) = Prefix::try_from(v) {
                let a = attrs(3, [1, 2, 3, 4], 5, fill32(12));
                let e = ek(pf, &a, kb(&fill32(13)));
                let raw = pay(v, &a, &kb(&fill32(13)));
                let want = rekey(&raw);
                same!(e.to_string(), want, "text under version {:#010x}", v);
                if let Ok(x) = want.parse::<ExtendedKey>() { same!(x.to_string(), want, "text parsed and printed"); same!(x.prefix.version(), v, "version"); }
                c.step();
            }
        }
        Ok(())
    });
    crate::rare::texts(r, parse_check);
}

// BIP32 test vector 5: texts that must be refused.
const VECTOR5: [&str; 16] = [
    "xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6LBpB85b3D2yc8sfvZU521AAwdZafEz7mnzBBsz4wKY5fTtTQBm",
    "xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFGTQQD3dC4H2D5GBj7vWvSQaaBv5cxi9gafk7NF3pnBju6dwKvH",
    "xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6Txnt3siSujt9RCVYsx4qHZGc62TG4McvMGcAUjeuwZdduYEvFn",
    "xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFGpWnsj83BHtEy5Zt8CcDr1UiRXuWCmTQLxEK9vbz5gPstX92JQ",
    "xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6N8ZMMXctdiCjxTNq964yKkwrkBJJwpzZS4HS2fxvyYUA4q2Xe4",
    "xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFAzHGBP2UuGCqWLTAPLcMtD9y5gkZ6Eq3Rjuahrv17fEQ3Qen6J",
    "xprv9s2SPatNQ9Vc6GTbVMFPFo7jsaZySyzk7L8n2uqKXJen3KUmvQNTuLh3fhZMBoG3G4ZW1N2kZuHEPY53qmbZzCHshoQnNf4GvELZfqTUrcv",
    "xpub661no6RGEX3uJkY4bNnPcw4URcQTrSibUZ4NqJEw5eBkv7ovTwgiT91XX27VbEXGENhYRCf7hyEbWrR3FewATdCEebj6znwMfQkhRYHRLpJ",
    "xprv9s21ZrQH4r4TsiLvyLXqM9P7k1K3EYhA1kkD6xuquB5i39AU8KF42acDyL3qsDbU9NmZn6MsGSUYZEsuoePmjzsB3eFKSUEh3Gu1N3cqVUN",
    "xpub661MyMwAuDcm6CRQ5N4qiHKrJ39Xe1R1NyfouMKTTWcguwVcfrZJaNvhpebzGerh7gucBvzEQWRugZDuDXjNDRmXzSZe4c7mnTK97pTvGS8",
    "DMwo58pR1QLEFihHiXPVykYB6fJmsTeHvyTp7hRThAtCX8CvYzgPcn8XnmdfHGMQzT7ayAmfo4z3gY5KfbrZWZ6St24UVf2Qgo6oujFktLHdHY4",
    "DMwo58pR1QLEFihHiXPVykYB6fJmsTeHvyTp7hRThAtCX8CvYzgPcn8XnmdfHPmHJiEDXkTiJTVV9rHEBUem2mwVbbNfvT2MTcAqj3nesx8uBf9",
    "xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzF93Y5wvzdUayhgkkFoicQZcP3y52uPPxFnfoLZB21Teqt1VvEHx",
    "xprv9s21ZrQH143K24Mfq5zL5MhWK9hUhhGbd45hLXo2Pq2oqzMMo63oStZzFAzHGBP2UuGCqWLTAPLcMtD5SDKr24z3aiUvKr9bJpdrcLg1y3G",
    "xpub661MyMwAqRbcEYS8w7XLSVeEsBXy79zSzH1J8vCdxAZningWLdN3zgtU6Q5JXayek4PRsn35jii4veMimro1xefsM58PgBMrvdYre8QyULY",
    "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHL",
];

fn sample_text(which: usize) -> String {
    let d = [3, 0, 255][which % 3];
    let p = Prv { k: fill32(21), a: if d == 0 { attrs(0, [0; 4], 0, fill32(22)) } else { attrs(d, [1, 2, 3, 4], HARD + 5, fill32(22)) } };
    let pf = LIB_STD[(which * 5) % 8];
    if pf.is_private() { p.text(pf.version()) } else { p.neuter().text(pf.version()) }
}
fn respell(t: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let wide = |c: char| if c.is_ascii_graphic() { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c };
    o.push(t.chars().map(swap).collect());
    o.push(t.chars().map(wide).collect());
    o.push(t.chars().rev().collect());
    for k in 1..=4 { o.push(t[..k].to_uppercase() + &t[k..]); o.push(t.chars().enumerate().map(|(i, c)| if i < k { wide(c) } else { c }).collect()); }
    for p in ["xprv", "xpub", "tprv", "tpub", "yprv", "ypub", "zprv", "zpub", "Yprv", "Ypub", "Zprv", "Zpub", "uprv", "upub", "vprv", "vpub", "Ltpv", "Ltub", "dgub", "drkp", "xprw", "qpub", "1111", "XPRV"] { o.push(format!("{}{}", p, &t[4..])); o.push(format!("{}{}", p, t)); }
    o.push(t[4..].to_string());
    for g in [1usize, 2, 4, 5, 8, 16, 32, 56, 64, 76] { for sep in [" ", "\n", "\r\n", "-", "\t", "\u{200b}", "\\\n", ","] { o.push(t.as_bytes().chunks(g).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join(sep)); } }
    for (a, b) in [(" ", ""), ("", " "), ("\n", ""), ("", "\n"), ("", "\r\n"), ("\t", ""), ("\"", "\""), ("'", "'"), ("<", ">"), ("(", ")"), ("[", "]"), ("[d34db33f/44'/0'/0']", ""), ("", "/0/1"), ("", "/*"), ("", "#checksum"), ("bitcoin:", ""), ("xprv:", ""), ("BIP32:", ""), ("0x", ""), ("\u{feff}", ""), ("\0", ""), ("", "\0"), ("", "="), ("", "=="), ("m/", ""), ("pkh(", ")"), ("1", ""), ("11", ""), ("", "1"), ("", "z"), ("0", ""), ("", "0")] { o.push(format!("{}{}{}", a, t, b)); o.push(format!("{}{}{}", a.trim_end(), t, b.trim_start())); }
    if let Some(b) = b58::decode(t) {
        o.push(hex(&b)); o.push(hex(&b).to_uppercase());
        let n = b.len().saturating_sub(4);
        o.push(hex(&b[..n])); o.push(b58::encode(&b[..n]));
        o.push(b.iter().map(|x| *x as char).collect()); o.push(b[..n].iter().map(|x| *x as char).collect());
        let mut c = b.clone(); c.reverse(); o.push(b58::encode(&c));
        // the checksum of one hash only, reversed, of the record without its version, or left out or doubled
        let h = sha256(&b[..n]);
        for tail in [h[..4].to_vec(), sha256(&h)[28..].to_vec(), { let mut x = b[n..].to_vec(); x.reverse(); x }, b58::check(&b[4.min(n)..n]).to_vec(), vec![], [&b[n..], &b[n..]].concat(), vec![0; 4], b[n..n + 3.min(b.len() - n)].to_vec()] { o.push(b58::encode(&[&b[..n], &tail[..]].concat())); }
    }
    o
}
pub fn c17(r: &mut Run) {
    crate::near::sections(r, &["key texts"]);
    r.section("published invalid keys", "BIP32 test vector 5", |c| {
        let t = *c.of(&VECTOR5);
        ensure!(t.parse::<XPrv>().is_err(), "{:?} was accepted as a private key", t);
        ensure!(t.parse::<XPub>().is_err(), "{:?} was accepted as a public key", t);
        parse_check(c, t)
    });
    let nt = r.q(4, 16);
    r.section("one character changed", format!("{} texts x every position x every other Base58 character and 20 foreign ones", nt), |c| {
        let t = sample_text(c.pick(nt));
        let i = c.pick(t.len());
        parse_check(c, &t)?;
        for ch in b58::ALPHA.iter().map(|b| *b as char).chain(['0', 'O', 'I', 'l', ' ', '\n', '\0', '+', '/', '_', '-', '.', 'é', '１', 'ａ', '\u{200b}', '\u{7f}', '=', '\t', '😀']) {
            let mut s: Vec<char> = t.chars().collect();
            s[i] = ch;
            parse_check(c, &s.into_iter().collect::<String>())?;
        }
        c.state(&(&t, i));
        Ok(())
    });
    r.section("characters exchanged, dropped, inserted", format!("{} texts: every transposition of neighbours, every truncation at either end, every deletion, every insertion of each of 70 characters, padding", nt), |c| {
        let t = sample_text(c.pick(nt));
        let i = c.pick(t.len() + 1);
        let cs: Vec<char> = t.chars().collect();
        if i > 0 && i < cs.len() { let mut s = cs.clone(); s.swap(i - 1, i); parse_check(c, &s.into_iter().collect::<String>())?; }
        if i < cs.len() { let mut s = cs.clone(); s.remove(i); parse_check(c, &s.into_iter().collect::<String>())?; }
        parse_check(c, &cs[..i].iter().collect::<String>())?;
        parse_check(c, &cs[i..].iter().collect::<String>())?;
        for ch in b58::ALPHA.iter().map(|b| *b as char).chain([' ', '\n', '\0', '0', '\u{200b}', 'é', '\r', '\t', '\u{feff}', '\u{3000}', '"', ',']) { let mut s = cs.clone(); s.insert(i, ch); parse_check(c, &s.into_iter().collect::<String>())?; }
        for n in 1..5 { parse_check(c, &format!("{}{}", "1".repeat(n), t))?; parse_check(c, &format!("{}{}", t, "1".repeat(n)))?; }
        parse_check(c, &format!("{}{}", t, t))?;
        parse_check(c, &t.to_uppercase())?;
        parse_check(c, &t.to_lowercase())?;
        Ok(())
    });
    r.section("whole texts respelled", format!("{} texts in {} other ways: case, order, scripts, groups, line breaks, quotes, schemes, other letters of the version, hexadecimal and raw forms", nt, respell("xprvxprv").len()), |c| {
        let t = sample_text(c.pick(nt));
        for s in respell(&t) { parse_check(c, &s)?; }
        c.state(&t);
        Ok(())
    });
    r.section("any character", "every Unicode scalar value (beyond plane 2 every 16th block of 256) put before, inside and after a private and a public key text, and in place of a character", |c| {
        let b = c.pick(0x110000 / 256);
        if b * 256 >= 0x30000 && b % 16 != 0 { return Ok(()); }
        let t = sample_text(c.pick(2));
        for x in b * 256..b * 256 + 256 {
            if let Some(ch) = char::from_u32(x as u32) {
                for (i, j) in [(0, 0), (0, 1), (60, 60), (60, 61), (t.len() - 1, t.len()), (t.len(), t.len())] { let mut s = t.clone(); s.replace_range(i..j, ch.encode_utf8(&mut [0; 4])); parse_check(c, &s)?; }
            }
        }
        Ok(())
    });
    r.section("payload lengths", "Base58Check of every payload length 0..=200 (and 78+256, 78+65536), cut from or extending a good record, under each standard version", |c| {
        let v = c.of(&STD).1;
        let n = c.pick(203);
        let n = match n { 201 => 78 + 256, 202 => if v == STD[0].1 { 78 + 4096 } else { 79 }, n => n };
        let raw: Vec<u8> = pay(v, &attrs(2, [9; 4], 4, fill32(23)), &kb(&fill32(24))).to_vec();
        let mut x = raw.clone();
        x.resize(n, 0);
        parse_check(c, &rekey(&x))?;
        x = raw[..n.min(78)].to_vec();
        while x.len() < n { x.push(0xab); }
        parse_check(c, &rekey(&x))?;
        let mut y = vec![0; n.saturating_sub(78)]; y.extend_from_slice(&raw); y.truncate(n.max(1));
        parse_check(c, &rekey(&y))?;
        // without a checksum, or a checksum over something else
        parse_check(c, &b58::encode(&x))?;
        let mut z = x.clone(); let h = sha256(&x); z.extend_from_slice(&h[..4]); parse_check(c, &b58::encode(&z))?;
        let mut z = x.clone(); z.extend_from_slice(&[0; 4]); parse_check(c, &b58::encode(&z))?;
        c.state(&(v, n));
        Ok(())
    });
    r.section("checksum", "good records with every checksum byte replaced by all 256 values, reversed, doubled, short", |c| {
        let v = c.of(&STD).1;
        let k = c.pick(4);
        let private = STD.iter().find(|s| s.1 == v).unwrap().2;
        let raw = pay(v, &attrs(2, [9; 4], 4, fill32(23)), &if private { kb(&fill32(24)) } else { m32::point(&fill32(24)) });
        let ck = b58::check(&raw);
        for b in 0..=255u8 {
            let mut z = raw.to_vec(); let mut q = ck; q[k] = b; z.extend_from_slice(&q);
            parse_check(c, &b58::encode(&z))?;
        }
        for q in [[ck[3], ck[2], ck[1], ck[0]], [ck[1], ck[0], ck[2], ck[3]]] { let mut z = raw.to_vec(); z.extend_from_slice(&q); parse_check(c, &b58::encode(&z))?; }
        for n in 0..4 { let mut z = raw.to_vec(); z.extend_from_slice(&ck[..n]); parse_check(c, &b58::encode(&z))?; }
        let mut z = raw.to_vec(); z.extend_from_slice(&ck); z.extend_from_slice(&ck); parse_check(c, &b58::encode(&z))?;
        Ok(())
    });
    r.section("every byte with a correct checksum", "8 standard versions x every byte of the record x all 256 values, for a private and a public key, at depth 0 and depth 3", |c| {
        let v = c.of(&STD).1;
        let public = c.flag();
        let d = *c.of(&[0u8, 3]);
        let i = c.pick(78);
        for b in 0..=255u8 {
            let mut raw = pay(v, &attrs(d, [1, 2, 3, 4], 5, fill32(25)), &if public { m32::point(&fill32(26)) } else { kb(&fill32(26)) });
            raw[i] = b;
            parse_check(c, &rekey(&raw))?;
        }
        c.state(&(v, public, d, i));
        Ok(())
    });
    r.section("key range", "8 standard versions x marker bytes 0..=255 x scalars around 0, n, p and 2^256; points on and off the curve, both parities", |c| {
        let v = c.of(&STD).1;
        let mut ss = vec![u256(0), u256(1), u256(2), n_minus(1), n_plus(0), n_plus(1), [0xff; 32], ec::P.to_be(), ec::P.sub_borrow(&ec::ONE).0.to_be(), ec::P.add_carry(&ec::ONE).0.to_be()];
        for j in 0..32 { let mut t = n_plus(0); t[j] = t[j].wrapping_add(1); ss.push(t); let mut t = n_plus(0); t[j] = t[j].wrapping_sub(1); ss.push(t); }
        for j in 0..40 { ss.push(fill32(900 + j)); }
        let s = *c.of(&ss);
        for m in 0..=255u8 {
            let mut k = kb(&s); k[0] = m;
            parse_check(c, &rekey(&pay(v, &attrs(2, [1; 4], 5, fill32(27)), &k)))?;
        }
        c.state(&(v, s));
        Ok(())
    });
    r.section("depth zero", "8 standard versions x depths 0, 1, 255 x every single bit of parent fingerprint and child number", |c| {
        let std = *c.of(&STD);
        let d = *c.of(&[0u8, 1, 255]);
        let bit = c.pick(65);
        let mut raw = pay(std.1, &Attrs { depth: d, fp: [0; 4], cn: 0, cc: fill32(28) }, &if std.2 { kb(&fill32(29)) } else { m32::point(&fill32(29)) });
        if bit < 64 { raw[5 + bit / 8] ^= 0x80 >> (bit % 8); }
        parse_check(c, &rekey(&raw))
    });
    r.section("kind confusion", "every standard version x private and public key bytes", |c| {
        let v = c.of(&STD).1;
        for k in [kb(&fill32(30)), m32::point(&fill32(30)), { let mut k = m32::point(&fill32(30)); k[0] ^= 1; k }, { let mut k = kb(&fill32(30)); k[0] = 4; k }] { parse_check(c, &rekey(&pay(v, &attrs(1, [1; 4], 5, fill32(31)), &k)))?; }
        Ok(())
    });
    r.section("versions", format!("all versions within {} of each standard one, and a 2^16 grid of all versions", r.q(2000u32, 40_000)), {
        let near = r.q(2000u32, 40_000);
        move |c| {
            let private = c.flag();
            let k = if private { kb(&fill32(32)) } else { m32::point(&fill32(32)) };
            let a = attrs(1, [1; 4], 5, fill32(33));
            let which = c.pick(9);
            let b = c.pick(64) as u32;
            if which < 8 { let lo = STD[which].1 - near; for v in (lo + b..=STD[which].1 + near).step_by(64) { parse_check(c, &rekey(&pay(v, &a, &k)))?; } }
            else { for j in (b..65536).step_by(64) { parse_check(c, &rekey(&pay(j << 16 | 0x1234, &a, &k)))?; } }
            Ok(())
        }
    });
    r.section("record conversion", "extended-key records built in memory: every prefix x marker byte x scalar, into private and public keys", |c| {
        let pf = *c.of(&LIB_STD);
        let ss = [u256(0), u256(1), n_minus(1), n_plus(0), [0xff; 32], fill32(34), m32::point(&fill32(35))[1..].try_into().unwrap()];
        let s = *c.of(&ss);
        for m in 0..=255u8 {
            let mut k = kb(&s); k[0] = m;
            let a = attrs(1, [1; 4], 5, fill32(33));
            let x = XPrv::try_from(ek(pf, &a, k));
            let y = XPub::try_from(ek(pf, &a, k));
            let std = STD.iter().find(|t| t.1 == pf.version()).unwrap();
            same!(x.is_ok(), std.2 && m == 0 && ec::valid_scalar(&s).is_some(), "record {} {} as a private key", pf, hex(&k));
            same!(y.is_ok(), !std.2 && ec::decompress(&k).is_some(), "record {} {} as a public key", pf, hex(&k));
            c.steps(2);
        }
        Ok(())
    });
    r.section("short and odd texts", "all strings of up to 3 characters of a 10-letter alphabet, all lengths of repeated characters to 300, non-ASCII at every position of the first 6", |c| {
        match c.pick(3) {
            0 => { let n = c.pick(4); let mut s = String::new(); for _ in 0..n { s.push_str(*c.of(&["x", "p", "r", "v", "1", "z", "0", "é", " ", "\u{1F600}"])); } parse_check(c, &s) }
            1 => { let ch = *c.of(&["1", "x", "z", "é", "0", "\0"]); let b = c.pick(31); for n in b * 10..b * 10 + 10 { parse_check(c, &ch.repeat(n))?; parse_check(c, &format!("xprv{}", ch.repeat(n)))?; } Ok(()) }
            _ => { let t = sample_text(0); for i in 0..6 { for ch in ["é", "€", "😀"] { let mut s = t.clone(); s.insert_str(i, ch); parse_check(c, &s)?; s.remove(i); let mut u = t.clone(); u.replace_range(i..i + 1, ch); parse_check(c, &u)?; } } Ok(()) }
        }
    });
    if r.thorough {
        r.section("two characters changed", "one private and one public text x all pairs of positions x 6 replacement characters each", |c| {
            let t = sample_text(c.pick(2));
            let (i, j) = (c.pick(t.len()), c.pick(t.len()));
            if i >= j { return Ok(()); }
            for a in ['1', '2', 'Z', 'k', 'z', 'n'] { for b in ['1', '2', 'Z', 'k', 'z', 'n'] { let mut s: Vec<char> = t.chars().collect(); s[i] = a; s[j] = b; parse_check(c, &s.into_iter().collect::<String>())?; } }
            Ok(())
        });
    }
    crate::rare::texts(r, parse_check);
}

// ---- C18, C19 ------------------------------------------------------------------------------
fn flip(p: &Prv, bit: usize) -> Option<Prv> {
    let mut q = p.clone();
    let f = |b: &mut [u8], i: usize| b[i / 8] ^= 0x80 >> (i % 8);
    match bit {
        0..=255 => f(&mut q.k, bit),
        256..=511 => f(&mut q.a.cc, bit - 256),
        512..=519 => q.a.depth ^= 1 << (bit - 512),
        520..=551 => f(&mut q.a.fp, bit - 520),
        _ => q.a.cn ^= 1 << (bit - 552),
    }
    ec::valid_scalar(&q.k)?;
    Some(q)
}
const BITS: usize = 584;
fn cmp_prv(a: &XPrv, b: &XPrv, eq: bool, what: impl Fn() -> String) -> Res {
    let got = (a == b, a != b, bool::from(a.ct_eq(b)), b == a, b != a, bool::from(b.ct_eq(a)));
    ensure!(got == (eq, !eq, eq, eq, !eq, eq), "{}: ==, !=, ct_eq (both ways round) say {:?}, the keys are {}", what(), got, if eq { "the same" } else { "different" });
    Ok(())
}
fn cmp_pub(a: &XPub, b: &XPub, eq: bool, what: impl Fn() -> String) -> Res {
    let got = (a == b, a != b, b == a, b != a);
    ensure!(got == (eq, !eq, eq, !eq), "{}: ==, != (both ways round) say {:?}, the keys are {}", what(), got, if eq { "the same" } else { "different" });
    Ok(())
}
pub fn c18(r: &mut Run) {
    crate::near::sections(r, &["comparisons"]);
    let bases = r.q(2, 7);
    r.section("bit flips", format!("{} base keys: every single and every pair of bits of private key, chain code, depth, fingerprint and child number flipped; all comparisons both ways", bases), |c| {
        let b = c.pick(bases) as u64;
        let mut p = Prv { k: fill32(1000 + b), a: attrs([7u8, 0, 255, 1, 128, 2, 3][b as usize], [1, 2, 3, 4], [5u32, 0, HARD, u32::MAX, 0, 1, 2][b as usize], fill32(1010 + b)) };
        if p.a.depth == 0 { p.a.fp = [0; 4]; }
        // records of depth 0 that are no master keys may be refused; where they are not, they must compare like any other
        let xprv = |p: &Prv| -> Result<Option<XPrv>, String> { match xprv(p) { Err(_) if p.a.depth == 0 && (p.a.fp != [0; 4] || p.a.cn != 0) => Ok(None), r => r.map(Some) } };
        let Some(x) = xprv(&p)? else { return Err("no base key".into()) };
        let i = c.pick(BITS);
        if let Some(y) = xprv(&p)? { cmp_prv(&x, &y, true, || "a key and a rebuilt copy".into())?; }
        cmp_prv(&x, &x.clone(), true, || "a key and its clone".into())?;
        let q = match flip(&p, i) { Some(q) => q, None => return Ok(()) };
        let Some(y) = xprv(&q)? else { return Ok(()) };
        cmp_prv(&x, &y, false, || format!("keys differing in bit {}", i))?;
        c.steps(3);
        for j in 0..i {
            let z = match flip(&p, j) { Some(z) => z, None => continue };
            let Some(zk) = xprv(&z)? else { continue };
            cmp_prv(&y, &zk, false, || format!("keys differing in bits {} and {}", i, j))?;
            // and the doubly flipped one against the base
            if let Some(w) = flip(&q, j) { if let Some(w) = xprv(&w)? { cmp_prv(&x, &w, false, || format!("keys differing in bits {} and {} together", i, j))?; } }
            c.steps(2);
        }
        c.state(&(b, i));
        Ok(())
    });
    r.section("structured pairs", "all pairs of a key alphabet x attribute variants: equal exactly when every field is, and then the texts agree", |c| {
        let ks = keys(false);
        let vs: Vec<Attrs> = { let mut v = vec![]; for d in [0u8, 1, 2, 255] { for f in [[0; 4], [0, 0, 0, 1]] { for n in [0u32, 1, HARD] { for cc in [[0; 32], fill32(1)] { v.push(Attrs { depth: d, fp: f, cn: n, cc }); } } } } v };
        let k = *c.of(&ks);
        let a = c.of(&vs).clone();
        let p = Prv { k, a };
        let odd = |a: &Attrs| a.depth == 0 && (a.fp != [0; 4] || a.cn != 0);
        let x = match xprv(&p) { Err(_) if odd(&p.a) => return Ok(()), r => r? };
        let xp = x.public_key();
        for k2 in &ks { for a2 in &vs {
            let q = Prv { k: *k2, a: a2.clone() };
            // quadratic; only pairs equal in at least one of key or attributes, plus a few others
            if q.k != p.k && q.a != p.a && (q.a.cc != p.a.cc || q.a.fp != p.a.fp) { continue; }
            let y = match xprv(&q) { Err(_) if odd(&q.a) => continue, r => r? };
            cmp_prv(&x, &y, p == q, || format!("{:?} and {:?}", p, q))?;
            cmp_pub(&xp, &y.public_key(), p == q, || format!("public halves of {:?} and {:?}", p, q))?;
            same!(x.to_string(Prefix::XPRV).as_str() == y.to_string(Prefix::XPRV).as_str(), p == q, "private texts agree");
            same!(xp.to_string(Prefix::XPUB) == y.public_key().to_string(Prefix::XPUB), p == q, "public texts agree");
            c.steps(4);
        } }
        c.state(&p);
        Ok(())
    });
    r.section("public bit flips", "a key of depth 7 and a master key: every attribute bit and every pair of them, and the sign of the point", |c| {
        let p = if c.flag() { Prv { k: fill32(1000), a: attrs(7, [1, 2, 3, 4], 5, fill32(1010)) } } else { Prv { k: fill32(1001), a: attrs(0, [0; 4], 0, fill32(1011)) } };
        let i = 256 + c.pick(BITS - 256);
        let x = xprv(&p)?.public_key();
        let base = m32::point(&p.k);
        let public = |q: &Prv| -> Result<Option<XPub>, String> { let mut n = p.neuter(); n.k = base; n.a = q.a.clone(); match xpub(&n) { Err(_) if q.a.depth == 0 && (q.a.fp != [0; 4] || q.a.cn != 0) => Ok(None), r => r.map(Some) } };
        let q = flip(&p, i).unwrap();
        let Some(y) = public(&q)? else { return Ok(()) };
        cmp_pub(&x, &y, false, || format!("public keys differing in bit {}", i))?;
        for j in 256..i {
            if let Some(z) = public(&flip(&p, j).unwrap())? { cmp_pub(&y, &z, false, || format!("public keys differing in bits {} and {}", i, j))?; }
            if let Some(z) = public(&flip(&q, j).unwrap())? { cmp_pub(&x, &z, false, || format!("public keys differing in bits {} and {} together", i, j))?; }
        }
        let mut n = p.neuter(); n.k[0] ^= 1;
        cmp_pub(&x, &xpub(&n)?, false, || "opposite points".into())?;
        c.steps(3);
        Ok(())
    });
    r.section("routes to the same key", format!("{} keys reached by derivation, by text under each prefix, by record, by public derivation: all equal, all print alike", r.q(3000, 60_000)), {
        let n = r.q(3000usize, 60_000);
        move |c| {
            let i = c.pick(n) as u64;
            let seed = fill(i, 32);
            let cn = [(i as u32) & (HARD - 1), 0, HARD - 1][(i % 3) as usize];
            let root = XPrv::new(&seed).need("root")?;
            let a = root.derive_child(ChildNumber(cn)).need("child")?;
            let mut pubs = vec![a.public_key(), root.public_key().derive_child(ChildNumber(cn)).need("public child")?, XPub::from(&a)];
            let mut prvs = vec![a.clone(), XPrv::new_from_path(&seed, &path_of(&[cn])).need("path")?];
            for pf in LIB_STD { if pf.is_private() { prvs.push(a.to_string(pf).parse().need("parse")?); prvs.push(XPrv::try_from(a.to_extended_key(pf)).need("record")?); } else { pubs.push(pubs[0].to_string(pf).parse().need("parse")?); let e = pubs[1].to_extended_key(pf); pubs.push(XPub::try_from(e).need("record")?); } }
            for x in &prvs { for y in &prvs { cmp_prv(x, y, true, || format!("two routes to {}", a.to_string(Prefix::XPRV).as_str()))?; } }
            for x in &pubs { for y in &pubs { cmp_pub(x, y, true, || format!("two routes to {}", pubs[0].to_string(Prefix::XPUB)))?; same!(x.to_string(Prefix::XPUB), y.to_string(Prefix::XPUB), "texts"); } }
            cmp_prv(&a, &root, false, || "parent and child".into())?;
            cmp_pub(&pubs[0], &root.public_key(), false, || "public parent and child".into())?;
            c.steps((prvs.len() * prvs.len() + pubs.len() * pubs.len()) as u64);
            c.state(&seed);
            Ok(())
        }
    });
}
/// Debug output under every combination of formatting flags, plain and inside containers.
fn debug_forms(x: &XPrv) -> Vec<String> {
    macro_rules! flags { ($($f:literal)*) => { vec![$(
        format!(concat!("{:", $f, "?}"), x), format!(concat!("{:", $f, "x?}"), x), format!(concat!("{:", $f, "X?}"), x),
        format!(concat!("{:", $f, ".0?}"), x), format!(concat!("{:", $f, ".2?}"), x), format!(concat!("{:", $f, ".32x?}"), x), format!(concat!("{:", $f, ".64?}"), x), format!(concat!("{:", $f, ".200?}"), x),
    )*] } }
    let mut v = flags!["" "#" "+" "-" "0" "#0" "+#" "-#" "+0" "-0" "+#0" "-#0" "<" "^" ">" "*<" "_^#" "0>+#" "1" "32" "64" "032" "#64" "#064" "+64" "-64" "*^300" "*>#300" "x<+#0300" "<-200"];
    for w in 0..=130 { v.push(format!("{:1$?}", x, w)); v.push(format!("{:.1$?}", x, w)); v.push(format!("{:#.1$?}", x, w)); }
    v.extend([format!("{:?}", &&x), format!("{:?}", Some(x)), format!("{:#?}", vec![x]), format!("{:?}", (x, x)), format!("{:#?}", Box::new(x.clone())), format!("{:?}", Ok::<_, ()>(x))]);
    v
}
pub fn c19(r: &mut Run) {
    crate::near::sections(r, &["debug"]);
    let ks = keys(r.thorough);
    r.section("keys under equal attributes", format!("{} private keys x {} attribute sets: debug output under every combination of formatting flags (alternate, sign, zero, fill and alignment, width and precision 0..=130, hex), plain and inside containers, must not depend on the key, nor change when printed again", ks.len(), 8 * 3 * 4), |c| {
        let d = *c.of(&depths());
        let fp = *c.of(&fps());
        let cn = *c.of(&[0u32, HARD + 1, u32::MAX]);
        let a = attrs(d, fp, cn, fill32(1200 + d as u64));
        let forms = debug_forms;
        let base = forms(&xprv(&Prv { k: fill32(1300), a: a.clone() })?);
        for k in &ks {
            let x = xprv(&Prv { k: *k, a: a.clone() })?;
            let f = forms(&x);
            for (i, (g, w)) in f.iter().zip(&base).enumerate() { ensure!(g == w, "debug form {} of two keys differing only in the secret: {:?} and {:?}", i, g, w); }
            let y = x.clone();
            same!(format!("{:?}", y), f[0], "debug output of a clone");
            c.steps(f.len() as u64);
            c.state(&(k, d, fp, cn));
        }
        c.note(|| base[0].clone());
        Ok(())
    });
    r.section("attributes are shown", "debug output differs whenever depth, fingerprint, child number or chain code do", |c| {
        let p = Prv { k: fill32(1301), a: attrs(7, [1, 2, 3, 4], 5, fill32(1302)) };
        let i = 256 + c.pick(BITS - 256);
        let q = flip(&p, i).unwrap();
        if q.a.depth == 0 { return Ok(()); }
        let (x, y) = (xprv(&p)?, xprv(&q)?);
        ensure!(format!("{:?}", x) != format!("{:?}", y), "debug output does not show attribute bit {}", i);
        ensure!(format!("{:#?}", x) != format!("{:#?}", y), "pretty debug output does not show attribute bit {}", i);
        c.steps(2);
        Ok(())
    });
    r.section("derived and imported keys", "debug output after derivation, export and import depends on the attributes only", |c| {
        let i = c.pick(60) as u64;
        let seed = fill(i, 64);
        let x = XPrv::new_from_path(&seed, &path_of(&[HARD + i as u32, 1])).need("derive")?;
        let y = xprv(&Prv { k: fill32(1303), a: mod_attrs(x.attrs()) })?;
        let z: XPrv = x.to_string(Prefix::XPRV).parse().need("parse")?;
        for f in [format!("{:?}", x), format!("{:?}", z)] { same!(f, format!("{:?}", y), "debug output"); ensure!(!f.contains(&hex(&x.to_bytes())) && !f.contains(x.to_string(Prefix::XPRV).as_str()), "debug output shows the key"); }
        same!(format!("{:#?}", x), format!("{:#?}", y), "pretty debug output");
        c.steps(3);
        Ok(())
    });
}

// ---- C21, C25, C27 -------------------------------------------------------------------------
fn sign_check(c: &mut Ch, k: &[u8; 32], d: &[u8; 32]) -> Res {
    let sk = libsecp256k1::SecretKey::parse(k).need("key")?;
    let (sig, rec) = kms::ecdsa_sign(&sk, d).need("ecdsa_sign")?;
    c.step();
    let what = format!("signature by {} of {}", hex(k), hex(d));
    let (ws, wr) = ec::sign(&U256::from_be(k), d);
    same!(hex(&sig), hex(&ws), "{}", what);
    same!(rec, wr, "{}: recovery id", what);
    same!(ec::recover(&sig, rec, d).map(|p| ec::compress(&p)), Some(m32::point(k)), "{}: recovered key", what);
    let s: [u8; 32] = sig[32..].try_into().unwrap();
    ensure!(!ec::half_n().lt(&U256::from_be(&s)), "{}: s is in the upper half", what);
    c.fact(if rec & 1 == 1 { "odd recovery id" } else { "even recovery id" });
    if sig[0] == 0 || sig[32] == 0 { c.fact("component with a leading zero byte") }
    c.state(&sig[..]);
    Ok(())
}
pub fn c21(r: &mut Run) {
    crate::near::sections(r, &["signatures"]);
    let ks = keys(r.thorough);
    let mut ds: Vec<[u8; 32]> = vec![[0; 32], u256(1), [0xff; 32], n_minus(1), n_plus(0), n_plus(1), ec::half_n().to_be(), ec::P.to_be(), sha256(b""), sha256(b"abc")];
    for i in 0..32 { ds.push(pow2(i * 8)); let mut z = fill32(1400 + i as u64); for b in &mut z[..i] { *b = 0 } ds.push(z); }
    r.section("structured keys and digests", format!("{} keys x {} digests (zero, all ones, around the order, leading zeros, single bits)", ks.len(), ds.len()), |c| {
        let k = *c.of(&ks);
        let d = *c.of(&ds);
        sign_check(c, &k, &d)
    });
    let n = r.q(80_000usize, 1_000_000);
    r.section("many digests", format!("{} enumerated digests and keys; signatures with leading zero bytes and both recovery ids occur", n), |c| {
        let b = c.pick(n / 20) as u64;
        for i in b * 20..b * 20 + 20 { sign_check(c, &fill32(1500 + i % 7), &fill32(100_000 + i))?; }
        Ok(())
    });
    r.section("deterministic", "the same key and digest signed again, interleaved with other signatures", |c| {
        let i = c.pick(60) as u64;
        let sk = libsecp256k1::SecretKey::parse(&fill32(1600 + i)).need("key")?;
        let a = kms::ecdsa_sign(&sk, &fill32(i)).need("sign")?;
        let _ = kms::ecdsa_sign(&sk, &fill32(i + 1)).need("sign")?;
        let _ = kms::ecdsa_sign(&sk, &[1; 31]);
        same!(kms::ecdsa_sign(&sk, &fill32(i)).need("sign")?, a, "second signature");
        c.steps(3);
        Ok(())
    });
    let max = r.q(9000usize, 70_000);
    r.section("message lengths", format!("all lengths 0..={} and 32+2^8, 32+2^16, 32+2^20", max), |c| {
        let b = c.pick(max / 50 + 2);
        let v: Vec<usize> = if b == max / 50 + 1 { vec![32 + 256, 32 + 65536, 32 + (1 << 20)] } else { (b * 50..(b * 50 + 50).min(max + 1)).collect() };
        let sk = libsecp256k1::SecretKey::parse(&fill32(1700)).need("key")?;
        for n in v {
            for m in [vec![0; n], fill(3, n)] {
                same!(kms::ecdsa_sign(&sk, &m).is_ok(), n == 32, "acceptance of a {}-byte message", n);
                c.step();
            }
        }
        Ok(())
    });
    let far = r.q(300usize, 1100);
    r.section("contents that look like something else", format!("every length 0..={} x some 100 contents (texts in common notations, framed and padded data, keys, patterns), under two keys", far), |c| {
        let n = c.pick(far + 1);
        for k in [fill32(1700), u256(1)] {
            let sk = libsecp256k1::SecretKey::parse(&k).need("key")?;
            for (what, m) in looks(n) {
                c.step();
                if n == 32 { sign_check(c, &k, &m.clone().try_into().unwrap()).map_err(|x| format!("{}: {}", what, x))?; c.state(&m); }
                else { ensure!(kms::ecdsa_sign(&sk, &m).is_err(), "a {}-byte message ({}) was signed: {}", n, what, hex(&m)); }
            }
        }
        Ok(())
    });
    r.section("derived keys", "keys taken out of derived extended keys sign for their public keys", |c| {
        let i = c.pick(100) as u32;
        let x = XPrv::new_from_path(fill(i as u64, 64), &path_of(&[HARD + 44, i])).need("derive")?;
        let sk = libsecp256k1::SecretKey::from(&x);
        let d = sha256(&i.to_be_bytes());
        let (sig, rec) = kms::ecdsa_sign(&sk, &d).need("sign")?;
        same!(ec::recover(&sig, rec, &d).map(|p| ec::compress(&p)), Some(x.public_key().to_bytes()), "recovered key");
        sign_check(c, &x.to_bytes(), &d)
    });
    crate::rare::signatures(r, sign_check);
}
pub fn c25(r: &mut Run) {
    crate::near::sections(r, &["hashes", "fingerprints"]);
    let ks = keys(true);
    let n = r.q(60_000usize, 1_000_000);
    r.section("fingerprints", format!("{} structured keys, both signs, and {} enumerated ones", ks.len(), n), |c| {
        let i = c.pick(ks.len() + n / 20);
        let v: Vec<[u8; 32]> = if i < ks.len() { vec![ks[i], ec::FN.neg(&U256::from_be(&ks[i])).to_be()] } else { (0..20).map(|j| fill32(5000 + (i * 20 + j) as u64)).collect() };
        for k in v {
            let p = m32::point(&k);
            let x = xprv(&Prv { k, a: attrs(1, [1; 4], 1, [1; 32]) })?.public_key();
            let w = m32::fingerprint(&p);
            same!(x.fingerprint(), w, "fingerprint of {}", hex(&p));
            same!(PubT::fingerprint(x.public_key()), w, "fingerprint of {}", hex(&p));
            same!(xpub(&Pub { k: p, a: attrs(9, [3; 4], 8, [7; 32]) })?.fingerprint(), w, "fingerprint of {} under other attributes", hex(&p));
            if w[0] == 0 { c.fact("fingerprint with a leading zero byte") }
            c.steps(3);
            c.state(&w);
        }
        Ok(())
    });
    r.section("fingerprints over another key type", "toy key type: the default fingerprint of every key", |c| {
        let x = 1 + c.pick(250) as u32;
        let b = crate::b32::toy_pub_bytes(x);
        let h = hash160(&b);
        same!(PubT::fingerprint(&crate::b32::ToyPub(x)).to_vec(), h[..4].to_vec(), "fingerprint");
        c.step();
        Ok(())
    });
    let far = r.q(300usize, 1100);
    r.section("contents that look like something else", format!("every length 0..={} x some 100 contents (texts in common notations, framed and padded data, keys, patterns)", far), |c| {
        let n = c.pick(far + 1);
        for (what, m) in looks(n) { same!(kms::crypto::ripemd(&m), hex(&ripemd160(&m)), "RIPEMD-160 of {} bytes ({}) {}", n, what, hex(&m)); c.step(); }
        c.state(&n);
        Ok(())
    });
    let max = r.q(3000usize, 8000);
    r.section("RIPEMD-160 text", format!("every length 0..={} x 4 contents, lengths around 2^16, 2^17, 2^20, and 2^21 and 2^24; published vectors are in the model's self-test", max), |c| {
        let b = c.pick(max / 10 + 3);
        let v: Vec<usize> = if b == max / 10 + 1 { vec![65535, 65536, 65537, 65536 + 64, 1 << 17, (1 << 17) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) + 3] } else if b == max / 10 + 2 { if cfg!(debug_assertions) { vec![] } else { vec![(16 << 20) + 1] } } else { (b * 10..(b * 10 + 10).min(max + 1)).collect() };
        for n in v { for m in [vec![0; n], vec![0xff; n], fill(6, n), vec![0x80; n]] {
            same!(kms::crypto::ripemd(&m), hex(&ripemd160(&m)), "RIPEMD-160 of {} bytes", n);
            c.step();
        } }
        Ok(())
    });
    r.section("RIPEMD-160 bytes", "every byte value at every position of 1- to 8-byte messages, and digests with leading zero bytes and digits", |c| {
        let n = 1 + c.pick(8);
        let i = c.pick(n);
        for v in 0..=255u8 { let mut m = fill(8, n); m[i] = v; let h = kms::crypto::ripemd(&m); same!(h, hex(&ripemd160(&m)), "RIPEMD-160 of {}", hex(&m)); same!(h.len(), 40, "length"); c.step(); if h.starts_with('0') { c.fact("leading zero digit") } }
        Ok(())
    });
    crate::rare::digests(r);
    crate::rare::children(r, |c, p, i| {
        let w = m32::fingerprint(&m32::point(&p.k));
        same!(xprv(p)?.public_key().fingerprint(), w, "fingerprint of {}", hex(&m32::point(&p.k)));
        if let (Ok(x), true) = (xprv(p)?.derive_child(ChildNumber(i)), p.a.depth < 255) { same!(x.attrs().parent_fingerprint, w, "parent fingerprint in child {}", i); }
        c.steps(2);
        Ok(())
    });
}
pub fn c27(r: &mut Run) {
    crate::near::sections(r, &["prefixes"]);
    let one = |c: &mut Ch, v: u32| -> Res {
        let mut raw = [0u8; 78];
        raw[..4].copy_from_slice(&v.to_be_bytes());
        let a = Prefix::try_from(v);
        let b = Prefix::from_bytes(v.to_be_bytes());
        let d = Prefix::try_from(&v.to_be_bytes()[..]);
        c.step();
        same!((a.is_ok(), b.is_ok(), d.is_ok()), (a.is_ok(), a.is_ok(), a.is_ok()), "version {:#010x}: success of the three conversions", v);
        let std = STD.iter().find(|s| s.1 == v);
        if let Ok(p) = a {
            let text = rekey(&raw);
            same!(p.as_str(), &text[..4], "letters of version {:#010x}", v);
            ensure!(p.as_str().bytes().all(|b| b.is_ascii_alphabetic()) && p.as_str().len() == 4, "version {:#010x} has the prefix {:?}", v, p.as_str());
            ensure!(b == Ok(p) && d == Ok(p), "version {:#010x}: conversions differ", v);
            same!((p.version(), u32::from(p), u32::from(&p), p.to_bytes()), (v, v, v, v.to_be_bytes()), "version carried by {}", p);
            same!((p.to_string().as_str(), AsRef::<str>::as_ref(&p)), (p.as_str(), p.as_str()), "text of {}", p);
            same!((p.is_private(), p.is_public()), (p.as_str().ends_with("prv"), p.as_str().ends_with("pub")), "kind of {}", p);
            c.fact("a prefix");
            if let Some(s) = std { same!(p.as_str(), s.0, "name of version {:#010x}", v); }
        } else { ensure!(std.is_none(), "standard version {:#010x} refused", v); c.fact("refused"); }
        Ok(())
    };
    let near = r.q(20_000u32, 1 << 21);
    r.section("around the standard versions", format!("every version within {} of each of the eight", near), |c| {
        let s = *c.of(&STD);
        let b = c.pick(256) as u32;
        let lo = s.1 - near;
        for v in (lo + b..=s.1 + near).step_by(256) { one(c, v)?; }
        one(c, s.1)
    });
    let step = r.q(4096u64, 128);
    r.section("the whole range", format!("every {}th version of all 2^32, and every 2^k and its neighbours", step), |c| {
        let b = c.pick(1025) as u64;
        if b == 1024 { for k in 0..32 { for d in [0u32, 1, u32::MAX] { one(c, (1u32 << k).wrapping_add(d))?; } } return Ok(()); }
        let mut v = b << 22;
        while v < (b + 1) << 22 { one(c, v as u32)?; v += step; }
        Ok(())
    });
    r.section("low versions", "every version of a 2^16 block starting at each of 16 places: short Base58 forms with leading ones", |c| {
        let hi = *c.of(&[0u32, 1, 2, 0xff, 0x100, 0x0400, 0x0488, 0x04ff, 0x0500, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, 0x1000, 0x0435]);
        let b = c.pick(64) as u32;
        for lo in (b..65536).step_by(64) { one(c, hi << 16 | lo)?; }
        Ok(())
    });
    r.section("the eight constants", "names, versions, kinds, and inequality", |c| {
        let names = [("tprv", Prefix::TPRV), ("tpub", Prefix::TPUB), ("xprv", Prefix::XPRV), ("xpub", Prefix::XPUB), ("yprv", Prefix::YPRV), ("ypub", Prefix::YPUB), ("zprv", Prefix::ZPRV), ("zpub", Prefix::ZPUB)];
        let (n, p) = *c.of(&names);
        let s = STD.iter().find(|s| s.0 == n).unwrap();
        same!((p.as_str(), p.version(), p.is_private(), p.is_public()), (n, s.1, s.2, !s.2), "constant {}", n);
        same!(Prefix::try_from(s.1), Ok(p), "conversion of {}", n);
        same!(Prefix::from_parts_unchecked(n, s.1), p, "{} from parts", n);
        for (m, q) in names { same!(p == q, n == m, "{} == {}", n, m); same!(p.cmp(&q) == std::cmp::Ordering::Equal, n == m, "order of {} and {}", n, m); c.step(); }
        Ok(())
    });
    r.section("byte strings", "all lengths 0..=70 and 4+256: only four bytes convert", |c| {
        let n = c.pick(72);
        let n = if n == 71 { 260 } else { n };
        for s in STD { let mut b = s.1.to_be_bytes().to_vec(); b.resize(n, 0); same!(Prefix::try_from(&b[..]).is_ok(), n == 4, "conversion of {} bytes", n); let mut b2 = vec![0; n.saturating_sub(4)]; b2.extend_from_slice(&s.1.to_be_bytes()); b2.truncate(n); ensure!(n == 4 || Prefix::try_from(&b2[..]).is_err(), "{} bytes were accepted", n); c.steps(2); }
        Ok(())
    });
}
