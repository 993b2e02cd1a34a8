//! Results do not depend on earlier calls (C23): every history runs in its own fresh process.
use crate::common::*;
use crate::os::{in_child, with_device, Ans, Device};

pub type Keep = Box<dyn Fn() -> String>;
pub struct Op { pub name: String, pub fresh: bool, pub f: Box<dyn Fn() -> (String, Vec<Keep>) + Send + Sync> }
pub fn op(name: impl Into<String>, f: impl Fn() -> (String, Vec<Keep>) + Send + Sync + 'static) -> Op { Op { name: name.into(), fresh: false, f: Box::new(f) } }
pub fn plain(name: impl Into<String>, f: impl Fn() -> String + Send + Sync + 'static) -> Op { op(name, move || (f(), vec![])) }

pub fn show_m(m: &Mnemonic) -> String { format!("{} {} {:?} {:x} {:#X} {:?} {}", m, hex(m.entropy()), m.language(), m, m, m, hex(&m.as_bytes())) }
pub fn show_s(s: &Seed) -> String { format!("{:x} {:?}", s, s) }
pub fn show_x(x: &XPrv) -> String { format!("{} {} {} {:?} {}", x.to_string(Prefix::XPRV).as_str(), x.to_string(Prefix::ZPRV).as_str(), hex(&x.to_bytes()), x, show_p(&x.public_key())) }
pub fn show_p(x: &XPub) -> String { format!("{} {} {:?} {}", x.to_string(Prefix::XPUB), x.to_string(Prefix::TPUB), x.attrs(), hex(&x.fingerprint())) }
pub fn show_e(e: &ExtendedKey) -> String { let mut b = [0u8; ExtendedKey::MAX_BASE58_SIZE]; format!("{} {:?} {:?} {} {:?}", e, e.prefix, e.attrs, hex(&e.key_bytes), e.write_base58(&mut b)) }
pub fn show_d(p: &DerivationPath) -> String { format!("{} {:?} {} {:?}", p, p, p.len(), p.iter().collect::<Vec<_>>()) }
/// Show the outcome now, and keep the object and a clone so that both can be looked at again later.
pub fn keep<T: Clone + 'static, E: std::fmt::Debug>(r: Result<T, E>, show: fn(&T) -> String) -> (String, Vec<Keep>) {
    match r {
        Ok(t) => { let c = t.clone(); (show(&t), vec![Box::new(move || show(&t)), Box::new(move || show(&c.clone()))]) }
        Err(e) => (format!("error {:?}", e), vec![]),
    }
}
fn mn(l: Lang, p: &str) -> Result<Mnemonic, String> { Mnemonic::from_phrase(p, lang(l)).map_err(|e| format!("{:?}", e)) }
pub fn sd(l: Lang, p: &str, pw: &str) -> Result<Seed, String> { Ok(Seed::new(&mn(l, p)?, pw)) }
fn key(k: u64, cc: u64, depth: u8, fp: u8, cn: u32) -> Result<XPrv, String> { xprv(&Prv { k: fill32(k), a: attrs(depth, [fp; 4], cn, fill32(cc)) }) }
pub fn phrase(l: Lang, tag: usize, n: usize) -> String { m39::encode(l, &background(tag, n)).unwrap() }
fn d_prv(x: Result<XPrv, String>, i: u32) -> Result<XPrv, String> { x?.derive_child(ChildNumber(i)).map_err(|e| format!("{:?}", e)) }
fn d_pub(x: Result<XPrv, String>, i: u32) -> Result<XPub, String> { x?.public_key().derive_child(ChildNumber(i)).map_err(|e| format!("{:?}", e)) }

/// Operations of one family: arguments that share parts with one another.
pub fn families() -> Vec<(&'static str, Vec<Op>)> {
    let mut f: Vec<(&'static str, Vec<Op>)> = vec![];
    let mut v = vec![];
    for l in LANGS { for n in [16usize, 20, 32] { for tag in [0usize, 1, 4] { v.push(op(format!("from_entropy {:?} {} bytes pattern {}", l, n, tag), move || keep(Mnemonic::from_entropy(&background(tag, n), lang(l)), show_m))); } } }
    v.push(op("from_entropy of 17 bytes", || keep(Mnemonic::from_entropy(&[0; 17], Language::English), show_m)));
    v.push(op("from_entropy of 0 bytes", || keep(Mnemonic::from_entropy(&[], Language::ChineseSimplified), show_m)));
    f.push(("from_entropy", v));

    let mut texts: Vec<String> = vec![];
    for l in LANGS { for (n, tag) in [(16usize, 0usize), (16, 4), (24, 4), (32, 1)] { texts.push(phrase(l, tag, n)); } }
    let p = phrase(Lang::En, 4, 16);
    let w: Vec<&str> = p.split(' ').collect();
    texts.push(format!("{} {}", w[..11].join(" "), if w[11] == "zoo" { "abandon" } else { "zoo" })); // wrong checksum
    texts.push(format!("{} zzzz", w[..11].join(" ")));
    texts.push(w[..11].join(" "));
    texts.push(format!("  {}\n", w.join("\u{3000}")));
    texts.push(p.to_uppercase());
    texts.push(String::new());
    texts.push(phrase(Lang::Zh, 4, 16).replace(' ', ""));
    let mut v = vec![];
    for l in LANGS { for t in &texts {
        let (a, b) = (t.clone(), t.clone());
        v.push(op(format!("from_phrase {:?} {:?}", l, clip(t)), move || keep(Mnemonic::from_phrase(&a, lang(l)), show_m)));
        v.push(plain(format!("validate, size, language {:?} {:?}", l, clip(t)), move || format!("{:?} {:?} {:?}", Mnemonic::validate(&b, lang(l)), MnemonicType::for_phrase(&b), Language::from_phrase(&b))));
    } }
    f.push(("phrases", v));

    let mut v = vec![];
    for (l, n) in [(Lang::En, 16usize), (Lang::En, 32), (Lang::Zh, 16)] { for pw in ["", "a", "b", "ab", "A", "TREZOR", "TREZOR ", "é", "e\u{301}", "mnemonic"] { let p = phrase(l, 4, n); v.push(op(format!("seed {:?} {} {:?}", l, n, pw), move || keep(sd(l, &p, pw), show_s))); } }
    let (p2, p3) = (phrase(Lang::En, 0, 16), phrase(Lang::En, 5, 16));
    v.push(op("seed of another phrase", move || keep(sd(Lang::En, &p2, "a"), show_s)));
    v.push(op("seed of a third phrase", move || keep(sd(Lang::En, &p3, ""), show_s)));
    f.push(("seeds", v));

    let mut v = vec![];
    for n in [16usize, 32, 64] { for tag in [0u8, 1, 2] { v.push(op(format!("root of a {} byte seed of {}s", n, tag), move || keep(XPrv::new(vec![tag; n]), show_x))); } }
    v.push(op("root of 15 bytes", || keep(XPrv::new([1; 15]), show_x)));
    for p in ["m", "m/0", "m/0'", "m/0/1", "m/1/0", "m/44'/60'/0'/0/1", "m/44'/60'/0'/0/2"] { for s in [7u8, 8] { v.push(op(format!("seed {} along {}", s, p), move || keep(p.parse::<DerivationPath>().and_then(|q| XPrv::new_from_path([s; 32], &q)), show_x))); } }
    f.push(("roots and paths", v));

    let mut v = vec![];
    // parents that differ from the first in exactly one field
    let parents: Vec<(u64, u64, u8, u8, u32)> = vec![(1, 2, 3, 4, 5), (9, 2, 3, 4, 5), (1, 9, 3, 4, 5), (1, 2, 4, 4, 5), (1, 2, 3, 9, 5), (1, 2, 3, 4, 9), (1, 2, 255, 4, 5)];
    for q in parents {
        for i in [0u32, 1, HARD, HARD + 1, 65536] {
            v.push(op(format!("private child {:#x} of {:?}", i, q), move || keep(d_prv(key(q.0, q.1, q.2, q.3, q.4), i), show_x)));
            v.push(op(format!("public child {:#x} of {:?}", i, q), move || keep(d_pub(key(q.0, q.1, q.2, q.3, q.4), i), show_p)));
        }
    }
    f.push(("children", v));

    let mut v = vec![];
    let a = Prv { k: fill32(1), a: attrs(2, [1; 4], 3, fill32(2)) };
    let b = Prv { k: fill32(1), a: attrs(2, [1; 4], 4, fill32(2)) };
    let mut ts = vec![];
    for s in STD { ts.push(if s.2 { a.text(s.1) } else { a.neuter().text(s.1) }); }
    ts.push(b.text(STD[0].1));
    ts.push(b.neuter().text(STD[1].1));
    let mut t = ts[0].clone().into_bytes(); t[60] = if t[60] == b'z' { b'y' } else { b'z' }; ts.push(String::from_utf8(t).unwrap());
    ts.push(ts[0][..110].into()); ts.push(format!("{}1", ts[0])); ts.push("".into()); ts.push("xprv".into());
    for t in ts {
        let (t1, t2, t3) = (t.clone(), t.clone(), t.clone());
        v.push(op(format!("record {}", t), move || keep(t1.parse::<ExtendedKey>(), show_e)));
        v.push(op(format!("private key {}", t), move || keep(t2.parse::<XPrv>(), show_x)));
        v.push(op(format!("public key {}", t), move || keep(t3.parse::<XPub>(), show_p)));
    }
    f.push(("key texts", v));

    let mut v = vec![];
    for t in ["m", "m/0", "m/0'", "m/1/2'/3", "m/2147483647'", "m/2147483648", "m//1", "m/", "n/1", "", "m/+1", "m/1''"] { v.push(op(format!("path {:?}", t), move || keep(t.parse::<DerivationPath>(), show_d))); v.push(plain(format!("index {:?}", t), move || format!("{:?}", t.strip_prefix("m/").unwrap_or(t).parse::<ChildNumber>()))); }
    v.push(op("a pushed path", || { let mut p = path_of(&[1, HARD]); p.push(ChildNumber(7)); let q = p.parent(); keep(q.ok_or(()), show_d) }));
    f.push(("path texts", v));

    let mut v = vec![];
    for l in LANGS {
        for i in [0u16, 1, 1024, 2047] { v.push(plain(format!("word {} {:?}", i, l), move || lang(l).wordlist().get_word(i.into()).to_string())); }
        for w in ["abandon", "zoo", "\u{7684}", "zzz", ""] { v.push(plain(format!("number of {:?} {:?}", w, l), move || format!("{:?}", lang(l).wordmap().get_bits(w).map(u16::from)))); }
        for w in ["ab", "zo", "\u{7684}", "q", "zz", ""] { v.push(plain(format!("prefix {:?} {:?}", w, l), move || format!("{:?}", lang(l).wordlist().get_words_by_prefix(w)))); }
    }
    for c in ["en", "EN", "zh-cn", "zh", "fr"] { v.push(plain(format!("code {}", c), move || format!("{:?}", Language::from_language_code(c)))); }
    for n in [12usize, 15, 13, 24] { v.push(plain(format!("sizes {}", n), move || format!("{:?} {:?}", MnemonicType::for_word_count(n), MnemonicType::for_key_size(n * 32 / 3)))); }
    f.push(("words", v));

    let mut v = vec![];
    for k in [1u64, 2] { for m in [3u64, 4] { v.push(plain(format!("sign {} with {}", m, k), move || { let s = libsecp256k1::SecretKey::parse(&fill32(k)).unwrap(); format!("{:?}", kms::ecdsa_sign(&s, &fill32(m)).map_err(|_| ())) })); } }
    v.push(plain("sign 31 bytes", || format!("{:?}", kms::ecdsa_sign(&libsecp256k1::SecretKey::parse(&fill32(1)).unwrap(), &[0; 31]).is_err())));
    for t in ["", "a", "abc", "abd"] { v.push(plain(format!("ripemd {:?}", t), move || kms::crypto::ripemd(t.as_bytes()))); }
    for ver in [0x0488ade4u32, 0x0488b21e, 0x04358394, 0, 0x049d7878] { v.push(plain(format!("version {:#x}", ver), move || format!("{:?} {:?}", Prefix::try_from(ver), Prefix::from_bytes(ver.to_be_bytes())))); }
    f.push(("signatures, hashes, prefixes", v));

    // two of the non-deterministic operation: their own result is not compared
    let mut v = vec![];
    let mut g = plain("generate", || { let m = Mnemonic::new(MnemonicType::Words12, Language::English); show_m(&m).len().to_string() });
    g.fresh = true; v.push(g);
    let mut g = plain("generate with a failing OS source", || { let mut d = Device::new(1); d.script = vec![Ans::Eio]; d.forever = true; with_device(&mut d, || guard(|| Mnemonic::new(MnemonicType::Words24, Language::ChineseSimplified)).is_err().to_string()) });
    g.fresh = true; v.push(g);
    f.push(("generation", v));
    f
}
pub fn run_op(o: &Op) -> (String, Vec<Keep>) { match guard(|| (o.f)()) { Ok(x) => x, Err(e) => (e, vec![]) } }

/// Run a history in this process; "" or what differed.
fn go(ops: &[&Op], want: &[&String], threads: bool) -> Result<u64, String> {
    let mut kept: Vec<(usize, String, Keep)> = vec![];
    let mut n = 0;
    for (i, o) in ops.iter().enumerate() {
        let (got, ks) = if threads && i % 2 == 1 {
            let o = *o;
            (std::thread::scope(|s| s.spawn(|| run_op(o).0).join()).map_err(|_| "thread panicked")?, vec![])
        } else { run_op(o) };
        n += 1;
        if !o.fresh { same!(&got, want[i], "{:?} after {:?} (expected: its result in a fresh process)", o.name, ops[..i].iter().map(|o| &o.name).collect::<Vec<_>>()); }
        for k in ks { kept.push((i, got.clone(), k)); }
        for (j, v, k) in &kept { let now = guard(|| k())?; n += 1; same!(&now, v, "the object made by {:?}, looked at again after {:?}", ops[*j].name, ops[*j..=i].iter().map(|o| &o.name).collect::<Vec<_>>()); }
        // let half of the kept objects go, so that drops are part of the history
        if kept.len() > 3 { drop(kept.remove(0)); }
    }
    Ok(n)
}
pub fn child(f: impl FnOnce() -> Result<u64, String>) -> Result<u64, String> {
    let b = in_child(|| match f() { Ok(n) => n.to_le_bytes().to_vec(), Err(e) => [&[1u8][..], e.as_bytes()].concat() })?;
    if b.len() == 8 { Ok(u64::from_le_bytes(b.try_into().unwrap())) } else { Err(String::from_utf8_lossy(&b[1.min(b.len())..]).into_owned()) }
}

pub fn c23(r: &mut Run) {
    let fams = families();
    // each operation alone in a fresh process
    let base: Vec<Vec<String>> = if r.dry() { vec![] } else { fams.iter().map(|f| f.1.iter().map(|o| in_child(|| run_op(o).0.into_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| e)).collect()).collect() };
    let total: usize = fams.iter().map(|f| f.1.len()).sum();
    let pick = |fams: &Vec<(&'static str, Vec<Op>)>| -> Vec<(usize, usize)> { let mut v = vec![]; for (i, f) in fams.iter().enumerate() { for j in 0..f.1.len() { v.push((i, j)); } } v };
    let all = pick(&fams);
    r.section("alone", format!("each of {} operations, run alone in two fresh processes and three times in one", total), |c| {
        let (i, j) = *c.of(&all);
        let o = &fams[i].1[j];
        let w = &base[i][j];
        c.note(|| format!("{} -> {}", o.name, clip(w)));
        let n = child(|| go(&[o, o, o], &[w, w, w], false))?;
        c.steps(n);
        c.state(w);
        c.fact(fams[i].0);
        Ok(())
    });
    r.section("pairs within a family", format!("all ordered pairs of operations of each of {} families, as x y x y, on one thread and on two", fams.len()), |c| {
        let i = c.pick(fams.len());
        let f = &fams[i].1;
        let (x, y) = (c.pick(f.len()), c.pick(f.len()));
        if x == y { return Ok(()); }
        let t = c.flag();
        let n = child(|| go(&[&f[x], &f[y], &f[x], &f[y]], &[&base[i][x], &base[i][y], &base[i][x], &base[i][y]], t))?;
        c.steps(n);
        c.state(&(i, x, y));
        Ok(())
    });
    // a few representatives of each family, for longer histories across families
    let mut reps: Vec<(usize, usize)> = vec![];
    for (i, f) in fams.iter().enumerate() {
        let n = f.1.len();
        let k = r.q(3, 4);
        for q in 0..k.min(n) { reps.push((i, q * (n - 1) / (k - 1).max(1))); }
    }
    reps.dedup();
    let depth = 3;
    r.section("histories across families", format!("all histories of {} operations over {} representatives of the {} families, each in a fresh process", depth, reps.len(), fams.len()), |c| {
        let h: Vec<(usize, usize)> = (0..depth).map(|_| *c.of(&reps)).collect();
        let ops: Vec<&Op> = h.iter().map(|(i, j)| &fams[*i].1[*j]).collect();
        let want: Vec<&String> = h.iter().map(|(i, j)| &base[*i][*j]).collect();
        c.note(|| format!("{:?}", ops.iter().map(|o| &o.name).collect::<Vec<_>>()));
        let n = child(|| go(&ops, &want, false))?;
        c.steps(n);
        c.state(&h);
        Ok(())
    });
    let th = r.thorough;
    r.section("pairs across families", format!("for each of the {} operations x one process running x y1 x y2 x ... over all operations y{}", total, r.q("", "; and every ordered pair x y in a fresh process of its own")), |c| {
        let (i, j) = *c.of(&all);
        let (x, w) = (&fams[i].1[j], &base[i][j]);
        let k = c.pick(if th { fams.len() + 1 } else { 1 });
        if k == 0 {
            let mut n = 0;
            let n = child(|| {
                let mut one = |o: &Op, want: &String, at: &str| -> Res { n += 1; let got = run_op(o).0; if !o.fresh { same!(&got, want, "{:?} in x y1 x y2 ... with x = {:?}, at y = {:?} (expected: its result in a fresh process)", o.name, x.name, at); } Ok(()) };
                for (a, f) in fams.iter().enumerate() { for (b, o) in f.1.iter().enumerate() { one(x, w, &o.name)?; one(o, &base[a][b], &o.name)?; } }
                Ok(n)
            })?;
            c.steps(n);
        } else if k - 1 != i {
            let k = k - 1;
            for (b, y) in fams[k].1.iter().enumerate() { let n = child(|| go(&[x, y], &[w, &base[k][b]], false))?; c.steps(n); }
        }
        c.state(&(i, j, k));
        Ok(())
    });
    let longest = r.q(60, 1000);
    r.section("long histories", format!("each operation {} times in a row followed by all others of its family; and all {} operations in order, in reverse and by 7 strides, twice over", longest, total), |c| {
        if c.flag() {
            let stride = *c.of(&[1usize, 0, 2, 3, 5, 7, 11, 13, 17]);
            let n = all.len();
            let h: Vec<(usize, usize)> = (0..2 * n).map(|k| if stride == 0 { all[n - 1 - k % n] } else { all[(k * stride + k / n) % n] }).collect();
            let ops: Vec<&Op> = h.iter().map(|(i, j)| &fams[*i].1[*j]).collect();
            let want: Vec<&String> = h.iter().map(|(i, j)| &base[*i][*j]).collect();
            let n = child(|| go(&ops, &want, false))?;
            c.steps(n);
            c.state(&stride);
        } else {
            let (i, j) = *c.of(&all);
            let f = &fams[i].1;
            let slow = fams[i].0 == "seeds" || fams[i].0 == "children";
            let n = if slow { longest / 10 } else { longest };
            let mut ops: Vec<&Op> = vec![&f[j]; n];
            let mut want: Vec<&String> = vec![&base[i][j]; n];
            for (k, o) in f.iter().enumerate() { ops.push(o); want.push(&base[i][k]); }
            let n = child(|| go(&ops, &want, false))?;
            c.steps(n);
            c.state(&(i, j));
        }
        Ok(())
    });
    r.section("very long runs", "each family over and over in one process: 66000 calls (children and paths 10000, seeds 600)", |c| {
        let i = c.pick(fams.len());
        let f = &fams[i];
        if f.1.iter().any(|o| o.fresh) { return Ok(()); }
        let calls = match f.0 { "seeds" => 600, "children" | "roots and paths" => 10_000, _ => 66_000 };
        let n = child(|| {
            for k in 0..calls {
                let o = &f.1[k % f.1.len()];
                let got = run_op(o).0;
                same!(&got, &base[i][k % f.1.len()], "{:?} as call number {} of the process (expected: its result in a fresh process)", o.name, k + 1);
            }
            Ok(calls as u64)
        })?;
        c.steps(n);
        c.state(&i);
        Ok(())
    });
    // many different arguments: anything remembered by a bounded or lossy table would surface
    let many = r.q(600, 20_000);
    r.section("many different arguments", format!("{} different entropies, phrases, derivations, texts and messages in one process, the first 50 asked again after each block of 50, against the reference model", many), |c| {
        let what = c.pick(6);
        let n = if what == 5 { many / 10 } else { many };
        let one = move |k: u64| -> Res {
            let l = LANGS[(k % 2) as usize];
            match what {
                0 => { let e = fill(k, SIZES[(k % 5) as usize]); let m = Mnemonic::from_entropy(&e, lang(l)).need("from_entropy")?; same!(m.phrase(), m39::encode(l, &e).unwrap(), "phrase"); }
                1 => { let e = fill(k, SIZES[(k % 5) as usize]); let m = Mnemonic::from_phrase(&m39::encode(l, &e).unwrap(), lang(l)).need("from_phrase")?; same!(hex(m.entropy()), hex(&e), "entropy"); }
                2 => { let p = Prv { k: fill32(k), a: attrs(1 + (k % 9) as u8, [k as u8; 4], k as u32, fill32(k + 1)) }; same!(as_prv(&xprv(&p)?.derive_child(ChildNumber(k as u32)).need("child")?), p.child(k as u32).unwrap(), "child"); }
                3 => { let p = Prv { k: fill32(k), a: attrs(1 + (k % 9) as u8, [k as u8; 4], k as u32, fill32(k + 1)) }; let t = p.text(STD[0].1); let x: XPrv = t.parse().need("parse")?; same!(x.public_key().to_string(Prefix::XPUB), p.neuter().text(Prefix::XPUB.version()), "public text"); }
                4 => { let p: Vec<u32> = (0..k % 7).map(|i| (k * 31 + i) as u32).collect(); let t = m32::path_text(&p); let d: DerivationPath = t.parse().need("path")?; same!(d.to_string(), t, "path"); same!(kms::crypto::ripemd(&fill(k, 20)), hex(&ripemd160(&fill(k, 20))), "ripemd"); }
                _ => { let ph = phrase(l, 4 + (k % 3) as usize, 16); let pw = format!("{}", k); same!(hex(Seed::new(&mn(l, &ph)?, &pw).as_bytes()), hex(&m39::seed(l, &ph, &pw)), "seed"); }
            }
            Ok(())
        };
        let n = child(move || { let mut q = 0; for b in 0..n / 50 { for k in b * 50..b * 50 + 50 { one(k as u64)?; q += 1; } for k in 0..if what == 5 { 3 } else { 50 } { one(k)?; q += 1; } } Ok(q) })?;
        c.steps(n);
        c.state(&what);
        Ok(())
    });
}
