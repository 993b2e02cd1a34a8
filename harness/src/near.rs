//! Similar arguments: operations whose arguments differ in one place only, one right after the
//! other.  Anything remembered between calls under a key that leaves something out surfaces here.
use crate::common::*;
use crate::hist::*;
use crate::os::in_child;

/// `v` with one place changed, in every way that tends to be overlooked.
fn vary(v: &[u8]) -> Vec<Vec<u8>> {
    let n = v.len();
    let mut o = vec![v.to_vec()];
    for i in [0, 1, 3, 4, 7, 8, 15, 16, n / 2, n.saturating_sub(17), n.saturating_sub(9), n.saturating_sub(5), n.saturating_sub(4), n.saturating_sub(2), n - 1] { if i < n { for x in [1u8, 0x80] { let mut w = v.to_vec(); w[i] ^= x; o.push(w); } } }
    // two changes that cancel under sums and xors, and other orders of the same bytes
    if n > 9 { let mut w = v.to_vec(); w[2] ^= 4; w[9] ^= 4; o.push(w); let mut w = v.to_vec(); w[2] = w[2].wrapping_add(1); w[9] = w[9].wrapping_sub(1); o.push(w); let mut w = v.to_vec(); w.swap(0, n - 1); o.push(w); let mut w = v.to_vec(); w.reverse(); o.push(w); let mut w = v.to_vec(); w.rotate_left(8); o.push(w); }
    let mut seen = std::collections::HashSet::new();
    o.retain(|w| seen.insert(w.clone()));
    o
}
fn paths_near(base: &[u32]) -> Vec<Vec<u32>> {
    let n = base.len();
    let mut o = vec![base.to_vec()];
    for s in 0..1u32 << n { if n > 5 && s.count_ones() > 1 && s + 1 < 1 << n { continue; } o.push(base.iter().enumerate().map(|(i, x)| if s >> i & 1 == 1 { x ^ HARD } else { *x }).collect()); }
    for i in 0..n {
        for d in [1u32, 0u32.wrapping_sub(1), 10, 256, 65536] { let mut p = base.to_vec(); p[i] = (p[i] & HARD) | (p[i].wrapping_add(d) & !HARD); o.push(p); }
        let mut p = base.to_vec(); p.remove(i); o.push(p);
        let mut p = base.to_vec(); p.insert(i, base[i]); o.push(p);
        o.push(base[..i].to_vec());
        if i + 1 < n { let mut p = base.to_vec(); p.swap(i, i + 1); o.push(p);
            // the same digits cut elsewhere: 1/23 and 12/3
            let (a, b) = (base[i] & !HARD, base[i + 1] & !HARD);
            let t = format!("{}{}", a, b);
            for k in (1..t.len()).filter(|_| n < 6) { if let (Ok(x), Ok(y)) = (t[..k].parse::<u32>(), t[k..].parse::<u32>()) { if x < HARD && y < HARD { let mut p = base.to_vec(); p[i] = x | base[i] & HARD; p[i + 1] = y | base[i + 1] & HARD; o.push(p); } } }
            if let Ok(x) = t.parse::<u32>() { if x < HARD { let mut p = base.to_vec(); p[i] = x | base[i + 1] & HARD; p.remove(i + 1); o.push(p); } } }
    }
    o.push([base, &[0]].concat());
    o.push(base.iter().rev().cloned().collect());
    let mut seen = std::collections::HashSet::new();
    o.retain(|w| seen.insert(w.clone()));
    o
}
fn group(name: &str) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    match name {
        "entropies" => for l in LANGS { for n in [16usize, 24, 32] { for e in vary(&fill(40, n)) { v.push(op(format!("from_entropy {:?} {}", l, hex(&e)), move || keep(Mnemonic::from_entropy(&e, lang(l)), show_m))); } } },
        "phrases" => for l in LANGS {
            let p = phrase(l, 4, 16);
            let w: Vec<String> = p.split(' ').map(String::from).collect();
            let mut ts = vec![p.clone(), format!(" {}", p), p.replace(' ', "\u{3000}"), p.to_uppercase(), w[..11].join(" "), format!("{} {}", p, w[0]), p.replace(' ', ""), w.iter().rev().cloned().collect::<Vec<_>>().join(" "), phrase(if l == Lang::En { Lang::Zh } else { Lang::En }, 4, 16), phrase(l, 4, 20), phrase(l, 4, 32)];
            for i in [0usize, 1, 5, 10] { let mut x = w.clone(); x.swap(i, i + 1); ts.push(x.join(" ")); }
            // phrases of similar entropies: first or last words in common, near-identical words
            for e in vary(&background(4, 16)) { ts.push(m39::encode(l, &e).unwrap()); }
            // the last word replaced: same eleven words, valid or not
            for k in [0usize, 1, 2, 700, 2046, 2047] { let mut x = w.clone(); x[11] = m39::words(l)[k].to_string(); ts.push(x.join(" ")); }
            for t in ts { for k in LANGS { let t = t.clone(); v.push(op(format!("from_phrase {:?} {:?}", k, t), move || { let mut r = keep(Mnemonic::from_phrase(&t, lang(k)), show_m); r.0 += &format!(" {:?} {:?} {:?}", Mnemonic::validate(&t, lang(k)), MnemonicType::for_phrase(&t), Language::from_phrase(&t)); r })); } }
        },
        "seeds" => {
            let mut ps: Vec<String> = ["", "a", "A", "b", "ab", "ba", "a ", " a", "aa", "abcdefgh", "abcdefgi", "bbcdefgh", "abcdefghi", "abcdefgh ", "abcdefg\u{301}", "é", "e\u{301}", "e", "ｅ", "mnemonic", "a\0", "a\0b"].iter().map(|s| s.to_string()).collect();
            for n in [63usize, 64, 65, 119, 120, 121, 128] { ps.push("x".repeat(n)); ps.push(format!("{}y", "x".repeat(n - 1))); }
            for (l, t) in [(Lang::En, 4usize), (Lang::Zh, 4)] { let p = phrase(l, t, 16); for pw in &ps { let (p, pw) = (p.clone(), pw.clone()); v.push(op(format!("seed of {} with {:?}", p, clip(&pw)), move || keep(sd(l, &p, &pw), show_s))); } }
            for e in vary(&background(4, 16)).into_iter().step_by(2).chain([background(4, 20), background(4, 32)]) { let p = m39::encode(Lang::En, &e).unwrap(); v.push(op(format!("seed of {}", p), move || keep(sd(Lang::En, &p, ""), show_s))); }
            // a phrase continued in the passphrase
            let long = phrase(Lang::En, 4, 20); let cut = long.match_indices(' ').nth(11).unwrap().0; let (a, b) = (long[..cut].to_string(), long[cut..].to_string());
            if m39::import(Lang::En, &a).is_ok() { v.push(op("seed of a split phrase", move || keep(sd(Lang::En, &a, &b), show_s))); }
        }
        "roots" => for n in [16usize, 32, 64, 128] { for s in vary(&fill(41, n)) { v.push(op(format!("root of {}", hex(&s)), move || keep(XPrv::new(&s), show_x))); } },
        "paths" | "long paths" => {
            // text form in the model's notation; both ways to go along it
            let s0 = fill(42, 64);
            let mut s1 = s0.clone(); s1[63] ^= 1;
            let mut s2 = s0.clone(); s2[0] ^= 1;
            let bases: &[&[u32]] = if name == "paths" { &[&[44 | HARD, 60 | HARD, HARD, 0, 0], &[1, 23, 456, 7]] } else { &[&[44, 1_000_000_000, 0, 123_456_789, 12, 3, 45, 678]] };
            for b in bases {
                for p in paths_near(b) { for (j, s) in [&s0, &s1, &s2].into_iter().enumerate() {
                    if j > 0 && p[..] != b[..] && p.len() == b.len() { continue; }
                    let (p, s) = (p.clone(), s.clone());
                    v.push(plain(format!("seed {} along {}", j, m32::path_text(&p)), move || { let d = path_of(&p); let a = XPrv::new_from_path(&s, &d).map(|x| as_prv(&x)); let b = XPrv::new(&s).and_then(|x| x.derive_from_path(&d)).map(|x| as_prv(&x)); format!("{:?} {:?} {}", a, b, d) }));
                } }
            }
        }
        "public paths" => {
            let x = Prv { k: fill32(43), a: attrs(1, [2; 4], 3, fill32(44)) };
            for p in paths_near(&[1, 23, 456, 7]) { let x = x.clone(); v.push(plain(format!("public key along {}", m32::path_text(&p)), move || { let d = path_of(&p); match xprv(&x) { Ok(k) => format!("{:?} {:?}", k.public_key().derive_from_path(&d).map(|y| show_p(&y)), k.derive_from_path(&d).map(|y| show_p(&y.public_key()))), Err(e) => e } })); }
        }
        "children" => {
            let base = Prv { k: fill32(43), a: attrs(3, [2, 3, 4, 5], 6, fill32(44)) };
            let mut ps = vec![base.clone()];
            for i in [0usize, 3, 31] { let mut q = base.clone(); q.k[i] ^= 1; ps.push(q); let mut q = base.clone(); q.a.cc[i] ^= 1; ps.push(q); }
            for d in [1u8, 4, 131] { let mut q = base.clone(); q.a.depth = d; ps.push(q); }
            for i in [0usize, 3] { let mut q = base.clone(); q.a.fp[i] ^= 1; ps.push(q); }
            for n in [7u32, 6 | HARD, 6 << 24] { let mut q = base.clone(); q.a.cn = n; ps.push(q); }
            let mut q = base.clone(); q.k = negate(&q.k); ps.push(q);
            let mut q = base.clone(); q.a.cc = base.k; q.k = base.a.cc; ps.push(q);
            for p in ps { for i in [1u32, 0, 2, 1 | HARD, HARD, 1 << 8, 1 << 16, 1 << 24, 257] {
                let p = p.clone();
                v.push(plain(format!("child {:#x} of {:?}", i, p), move || match xprv(&p) {
                    Ok(k) => format!("{:?} {:?}", k.derive_child(ChildNumber(i)).map(|x| as_prv(&x)), k.public_key().derive_child(ChildNumber(i)).map(|x| show_p(&x))),
                    Err(e) => e }));
            } }
        }
        "key texts" => {
            let base = Prv { k: fill32(43), a: attrs(3, [2, 3, 4, 5], 6, fill32(44)) };
            let mut ps = vec![base.clone()];
            for i in [0usize, 15, 31] { let mut q = base.clone(); q.k[i] ^= 1; ps.push(q); let mut q = base.clone(); q.a.cc[i] ^= 1; ps.push(q); }
            for d in [4u8, 131] { let mut q = base.clone(); q.a.depth = d; ps.push(q); }
            let mut q = base.clone(); q.a.fp[3] ^= 1; ps.push(q);
            let mut q = base.clone(); q.a.cn ^= HARD; ps.push(q);
            let mut q = base.clone(); q.k = negate(&q.k); ps.push(q);
            for p in &ps { for s in STD {
                let t = if s.2 { p.text(s.1) } else { p.neuter().text(s.1) };
                v.push(plain(format!("read {}", t), move || format!("{:?} {:?} {:?}", t.parse::<ExtendedKey>().map(|e| show_e(&e)), t.parse::<XPrv>().map(|x| show_x(&x)), t.parse::<XPub>().map(|x| show_p(&x)))));
            } }
            let t = base.text(STD[0].1);
            for i in [0usize, 1, 4, 5, 40, 80, 109, 110] { let mut b = t.clone().into_bytes(); b[i] = if b[i] == b'A' { b'B' } else { b'A' }; let t = String::from_utf8(b).unwrap(); v.push(plain(format!("read {}", t), move || format!("{:?} {:?} {:?}", t.parse::<ExtendedKey>().map(|e| show_e(&e)), t.parse::<XPrv>().map(|x| show_x(&x)), t.parse::<XPub>().map(|x| show_p(&x))))); }
        }
        "path texts" => {
            let mut ts: Vec<String> = vec![];
            for b in [&[44 | HARD, 60 | HARD, HARD, 0][..], &[1, 23, 456]] { for p in paths_near(b) { ts.push(m32::path_text(&p)); } }
            for t in ["m/1/23/456/", "m/1//456", "m/1/23/456h", "m/1/23/+456", "M/1/23/456", "1/23/456", "m/1/23/456 ", "m/01/23/456", "m/1/23/2147483648", "m/1/23/4294967297", "m1/23/456", "/m/1", "", "m'", "m/'"] { ts.push(t.into()); }
            for t in ts { v.push(op(format!("path {:?}", t), move || keep(t.parse::<DerivationPath>(), show_d))); }
            for t in ["0", "1", "10", "01", "1'", "0'", "'", "", "1h", "11", "2147483647", "2147483648", "2147483647'", "4294967297", "-1", "+1", "1 "] { v.push(plain(format!("index {:?}", t), move || format!("{:?}", t.parse::<ChildNumber>()))); }
        }
        "words" => for l in LANGS {
            let ws = m39::words(l);
            for p in ["", "a", "ab", "abs", "abse", "abst", "ac", "b", "ba", "z", "zo", "zoo", "zooo", "q", "x", "A", "a ", "\u{7684}", "\u{4e00}", "\u{7684}\u{4e00}"] { v.push(plain(format!("prefix {:?} {:?}", p, l), move || format!("{:?}", lang(l).wordlist().get_words_by_prefix(p)))); }
            for i in [0usize, 1, 2, 255, 256, 257, 511, 512, 1023, 1024, 1280, 2046, 2047] { v.push(plain(format!("word {} {:?}", i, l), move || lang(l).wordlist().get_word((i as u16).into()).to_string())); for k in LANGS { let w = ws[i]; v.push(plain(format!("number of {:?} {:?}", w, k), move || format!("{:?} {:?}", lang(k).wordmap().get_bits(w).map(u16::from), Language::from_phrase(w)))); } }
            for w in ["actor", "actress", "actual", "act", "acto", "bulb", "bulk", "build", "builds", "", "zzz"] { v.push(plain(format!("number of {:?} {:?}", w, l), move || format!("{:?} {:?}", lang(l).wordmap().get_bits(w).map(u16::from), Language::from_phrase(w)))); }
        },
        "signatures" => {
            let mut ks: Vec<[u8; 32]> = vec![fill32(43), negate(&fill32(43))];
            for i in [0usize, 31] { let mut k = fill32(43); k[i] ^= 1; ks.push(k); }
            for k in ks { for d in vary(&fill(45, 32)) { v.push(plain(format!("sign {} with {}", hex(&d), hex(&k)), move || { let s = libsecp256k1::SecretKey::parse(&k).unwrap(); format!("{:?}", kms::ecdsa_sign(&s, &d).map_err(|_| ())) })); } }
            for n in [0usize, 31, 33, 64] { v.push(plain(format!("sign {} bytes", n), move || format!("{:?}", kms::ecdsa_sign(&libsecp256k1::SecretKey::parse(&fill32(43)).unwrap(), &fill(45, n)).is_err()))); }
        }
        "hashes" => for n in [1usize, 20, 63, 64, 65, 200] { for d in vary(&fill(46, n)) { v.push(plain(format!("ripemd of {}", hex(&d)), move || kms::crypto::ripemd(&d))); } },
        "fingerprints" => {
            for i in 0..32usize { for x in [0u8, 1, 0x80] { let mut k = fill32(43); k[i] ^= x; for neg in [false, true] { let k = if neg { negate(&k) } else { k }; v.push(plain(format!("fingerprint of {}", hex(&k)), move || match xprv(&Prv { k, a: attrs(1, [1; 4], 1, fill32(44)) }) { Ok(x) => format!("{} {}", hex(&x.public_key().fingerprint()), hex(&x.public_key().to_bytes())), Err(e) => e })); } } }
        }
        "key writing" => {
            let base = Prv { k: fill32(43), a: attrs(3, [2, 3, 4, 5], 6, fill32(44)) };
            let mut ps = vec![base.clone()];
            let mut q = base.clone(); q.k[31] ^= 1; ps.push(q);
            let mut q = base.clone(); q.k = negate(&q.k); ps.push(q);
            let mut q = base.clone(); q.a.cc[31] ^= 1; ps.push(q);
            let mut q = base.clone(); q.a.depth = 4; ps.push(q);
            let mut q = base.clone(); q.a.cn ^= HARD; ps.push(q);
            let mut q = base.clone(); q.a.fp[3] ^= 1; ps.push(q);
            let mut pfs: Vec<Prefix> = LIB_STD.to_vec();
            // the letters of one version over the number of another, and neighbouring numbers
            for (t, v) in [("xprv", STD[0].1 ^ 1), ("xprv", STD[3].1), ("xpub", STD[0].1), ("Xprv", STD[0].1), ("aprv", STD[0].1), ("xprv", 0), ("zpub", u32::MAX), ("abcd", STD[0].1 ^ 256)] { pfs.push(Prefix::from_parts_unchecked(t, v)); }
            for p in ps { for pf in pfs.clone() {
                let p = p.clone();
                v.push(plain(format!("write {:?} as {} {:#x}", p, pf.as_str(), pf.version()), move || match xprv(&p) {
                    Ok(k) => { let mut b = [0u8; ExtendedKey::MAX_BASE58_SIZE]; let e = k.to_extended_key(pf); let mut o = format!("{} {} {} {:?}", k.to_string(pf).as_str(), k.public_key().to_string(pf), e, e.write_base58(&mut b)); if let Ok(e) = k.public_key().to_extended_key(pf).write_base58(&mut b) { o += e; } o }
                    Err(e) => e }));
            } }
        }
        "prefixes" => {
            for s in STD { for b in 0..32 { let n = s.1 ^ 1 << b; for n in [s.1, n] { v.push(plain(format!("prefix of {:#x}", n), move || { let f = |r: Result<Prefix, lib32::Error>| match r { Ok(p) => format!("{:?} {} {:#x} {:?} {} {}", p, p, p.version(), p.to_bytes(), p.is_private(), p.is_public()), Err(e) => format!("{:?}", e) }; format!("{} {} {}", f(Prefix::from_bytes(n.to_be_bytes())), f(Prefix::try_from(n)), f(Prefix::try_from(&n.to_be_bytes()[..]))) })); } } }
        }
        "renderings" => {
            for l in LANGS { for e in vary(&fill(40, 16)).into_iter().step_by(3) { let p = m39::encode(l, &e).unwrap(); for k in 0..4 { let (e, p) = (e.clone(), p.clone()); v.push(plain(format!("hex {} of {} {:?}", k, hex(&e), l), move || { let m = if k % 2 == 0 { Mnemonic::from_entropy(&e, lang(l)) } else { Mnemonic::from_phrase(&p, lang(l)) }; match m { Ok(m) => if k < 2 { format!("{:x} {} {:?}", m, m, m.as_bytes()) } else { format!("{:#X} {:?} {:X} {}", m, m, m, m.as_ref()) }, Err(e) => format!("{:?}", e) } })); } } }
            for pw in ["", "a", "b"] { for k in 0..2 { v.push(plain(format!("seed hex {} {}", k, pw), move || match sd(Lang::En, &phrase(Lang::En, 4, 16), pw) { Ok(s) => if k == 0 { format!("{:x} {:#x}", s, s) } else { format!("{:X} {:#X} {:?}", s, s, s) }, Err(e) => e })); } }
        }
        "comparisons" => {
            let base = Prv { k: fill32(43), a: attrs(3, [2, 3, 4, 5], 6, fill32(44)) };
            let mut ps = vec![base.clone()];
            for i in [0usize, 31] { let mut q = base.clone(); q.k[i] ^= 1; ps.push(q); let mut q = base.clone(); q.a.cc[i] ^= 1; ps.push(q); }
            let mut q = base.clone(); q.k = negate(&q.k); ps.push(q);
            let mut q = base.clone(); q.a.depth = 4; ps.push(q);
            let mut q = base.clone(); q.a.fp[3] ^= 1; ps.push(q);
            let mut q = base.clone(); q.a.cn ^= HARD; ps.push(q);
            for a in ps.clone() { for b in ps.clone() { let a = a.clone(); v.push(plain(format!("{:?} == {:?}", a, b), move || match (xprv(&a), xprv(&b)) { (Ok(x), Ok(y)) => format!("{} {} {} {}", x == y, x != y, x.public_key() == y.public_key(), x.attrs() == y.attrs()), _ => "refused".into() })); } }
        }
        "debug" => for i in 0..24usize {
            let p = Prv { k: fill32(43 + (i % 3) as u64), a: attrs(3 + (i / 3 % 2) as u8, [2, 3, 4, 5], 6 ^ (i / 6 % 2) as u32, fill32(44 + (i / 12) as u64)) };
            for k in 0..3 { let p = p.clone(); v.push(plain(format!("debug {} of {:?}", k, p), move || match xprv(&p) { Ok(x) => match k { 0 => format!("{:?}", x), 1 => format!("{:#?}", x), _ => format!("{:?}", Some((&x, [&x]))) }, Err(e) => e })); }
        },
        "numbers" => for n in [0u32, 1, 2, 7, 255, 256, 1 << 16, 1 << 24, 44, 60, 1 << 30, HARD - 1, HARD - 2] { for n in [n, n | HARD] {
            v.push(plain(format!("number {:#x}", n), move || { let c = ChildNumber(n); format!("{} {:?} {} {} {:?} {} {:?} {:?} {:?}", c, c, c.index(), c.is_hardened(), c.to_bytes(), u32::from(c), ChildNumber::from(n), ChildNumber::from_bytes(n.to_be_bytes()), (ChildNumber::new(n & !HARD, n & HARD != 0), ChildNumber::new(n, false), ChildNumber::new(n, true))) }));
        } },
        "sizes" => for n in [0usize, 11, 12, 13, 15, 18, 21, 24, 25, 27, 120, 128, 132, 160, 165, 192, 224, 256, 264, 268, 384, 12 + 256, 128 + 65536] {
            v.push(plain(format!("size {}", n), move || format!("{:?} {:?} {:?}", MnemonicType::for_word_count(n).map(|t| (t, t.total_bits(), t.entropy_bits(), t.checksum_bits(), t.word_count(), t.to_string())).map_err(|e| e.to_string()), MnemonicType::for_key_size(n).map(|t| (t, t.word_count())).map_err(|e| e.to_string()), MnemonicType::for_phrase(&vec!["w"; n % 70000].join(" ")).map_err(|e| e.to_string()))));
        },
        n => panic!("no group {}", n),
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|o| seen.insert(o.name.clone()));
    v
}
pub const GROUPS: [&str; 21] = ["entropies", "phrases", "seeds", "roots", "paths", "long paths", "public paths", "children", "key texts", "path texts", "words", "signatures", "hashes", "fingerprints", "key writing", "prefixes", "renderings", "comparisons", "debug", "numbers", "sizes"];

/// Each operation x of a group in a process running x y1 x y2 ... over the whole group.
pub fn sections(r: &mut Run, names: &[&str]) {
    for g in names {
        let name = format!("similar arguments: {}", g);
        let v = if r.dry() { vec![] } else { group(g) };
        let next = std::sync::atomic::AtomicUsize::new(0);
        let base: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![String::new(); v.len()]);
        if r.wants(&name) {
            std::thread::scope(|s| for _ in 0..r.threads { s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= v.len() { break; }
                let t = in_child(|| run_op(&v[i]).0.into_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| e);
                base.lock().unwrap()[i] = t;
            }); });
        }
        let base = base.into_inner().unwrap();
        let step = if *g == "seeds" || *g == "signatures" { r.q(3, 1) } else { 1 };
        r.section(&name, format!("{} operations whose arguments differ in one place; for every {} of them, x, a fresh process runs x y1 x y2 ... over all the others, each result as in a fresh process of its own", v.len(), if step == 1 { "one".to_string() } else { format!("{}rd", step) }), |c| {
            let i = c.pick((v.len() + step - 1) / step) * step;
            let n = child(|| {
                let mut n = 0;
                for (j, y) in v.iter().enumerate() {
                    for (k, o) in [(i, &v[i]), (j, y)] {
                        let got = run_op(o).0;
                        same!(&got, &base[k], "{:?} in x y1 x y2 ... with x = {:?}, at y = {:?} (expected: its result in a fresh process)", o.name, v[i].name, y.name);
                        n += 1;
                    }
                }
                Ok(n)
            })?;
            c.steps(n);
            c.state(&i);
            Ok(())
        });
    }
}
