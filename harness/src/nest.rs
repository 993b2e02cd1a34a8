//! Calls from within calls: the library calls code of its user (byte sources, writers, iterators, key
//! types), and that code may call the library again.
use crate::common::*;
use crate::hist::*;
use crate::os::in_child;
use kms::bip32::{ExtendedPrivateKey, ExtendedPublicKey};
use std::cell::{Cell, RefCell};
use std::fmt::Write;

thread_local! {
    static HOOK: Cell<Option<&'static dyn Fn()>> = const { Cell::new(None) };
    static INSIDE: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
/// Called wherever user code runs; the hook does not run inside itself.
fn call() { if let Some(f) = HOOK.with(|h| h.take()) { f(); HOOK.with(|h| h.set(Some(f))); } }

/// A writer that fails once, at some write, and then goes on.
struct Once(String, usize);
impl Write for Once { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.is_empty() { return Ok(()); } self.1 = self.1.wrapping_sub(1); if self.1 == 0 { Err(std::fmt::Error) } else { self.0.push_str(s); Ok(()) } } }
struct Src(Vec<u8>);
impl AsRef<[u8]> for Src { fn as_ref(&self) -> &[u8] { call(); &self.0 } }
/// A writer that calls back, keeps what it is given and fails after so many bytes.
struct Out(String, usize);
impl Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { call(); let n = s.len().min(self.1); self.1 -= n; self.0.push_str(s.get(..n).unwrap_or("")); if n < s.len() { Err(std::fmt::Error) } else { Ok(()) } } }
struct Steps(Vec<u32>);
impl Iterator for Steps { type Item = ChildNumber; fn next(&mut self) -> Option<ChildNumber> { call(); self.0.pop().map(ChildNumber) } fn size_hint(&self) -> (usize, Option<usize>) { call(); (self.0.len(), None) } }
#[derive(Clone)]
struct K(libsecp256k1::SecretKey);
#[derive(Clone, PartialEq, Eq)]
struct KP(libsecp256k1::PublicKey);
impl std::fmt::Debug for KP { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { call(); f.write_str("KP") } }
impl PrvT for K {
    type PublicKey = KP;
    fn from_bytes(b: &[u8; 32]) -> kms::bip32::Result<Self> { call(); <libsecp256k1::SecretKey as PrvT>::from_bytes(b).map(K) }
    fn to_bytes(&self) -> [u8; 32] { call(); let b = PrvT::to_bytes(&self.0); call(); b }
    fn derive_child(&self, o: [u8; 32]) -> kms::bip32::Result<Self> { call(); let k = PrvT::derive_child(&self.0, o).map(K); call(); k }
    fn public_key(&self) -> KP { call(); KP(PrvT::public_key(&self.0)) }
}
impl PubT for KP {
    fn from_bytes(b: [u8; 33]) -> kms::bip32::Result<Self> { call(); <libsecp256k1::PublicKey as PubT>::from_bytes(b).map(KP) }
    fn to_bytes(&self) -> [u8; 33] { call(); PubT::to_bytes(&self.0) }
    fn derive_child(&self, o: [u8; 32]) -> kms::bip32::Result<Self> { call(); PubT::derive_child(&self.0, o).map(KP) }
}
type KX = ExtendedPrivateKey<K>;
type KY = ExtendedPublicKey<KP>;

/// Everything that can be printed, as (name, printer).
type Print = (&'static str, Box<dyn Fn(&mut dyn Write) -> std::fmt::Result + Send + Sync>);
fn prints() -> Vec<Print> {
    let mut v: Vec<Print> = vec![];
    macro_rules! p { ($n:expr, $f:literal, $e:expr) => { v.push(($n, Box::new(move |o: &mut dyn Write| write!(o, $f, $e)))) } }
    fn m() -> Mnemonic { Mnemonic::from_entropy(&fill(40, 16), Language::English).unwrap() }
    fn z() -> Mnemonic { Mnemonic::from_entropy(&fill(40, 20), Language::ChineseSimplified).unwrap() }
    fn s() -> Seed { Seed::new(&m(), "x") }
    fn x() -> XPrv { xprv(&Prv { k: fill32(43), a: attrs(3, [2, 3, 4, 5], 6, fill32(44)) }).unwrap() }
    p!("mnemonic", "{}", m()); p!("Chinese mnemonic", "{}", z()); p!("mnemonic debug", "{:?}", m()); p!("mnemonic hex", "{:x}", m()); p!("mnemonic HEX", "{:#X}", z()); p!("mnemonic 0x", "{:#x}", m());
    p!("seed hex", "{:x}", s()); p!("seed HEX", "{:X}", s()); p!("seed debug", "{:?}", s()); p!("seed 0x", "{:#x}", s());
    p!("key debug", "{:?}", x()); p!("key debug over lines", "{:#?}", x()); p!("public key debug", "{:?}", x().public_key());
    p!("extended key", "{}", x().to_extended_key(Prefix::XPRV)); p!("extended public key", "{}", x().public_key().to_extended_key(Prefix::ZPUB)); p!("attributes", "{:?}", x().attrs().clone());
    p!("prefix", "{}", Prefix::TPRV); p!("prefix debug", "{:?}", Prefix::TPRV);
    p!("path", "{}", path_of(&[44 | HARD, 60 | HARD, HARD, 0, 123456])); p!("path debug", "{:?}", path_of(&[44 | HARD, 7])); p!("child number", "{}", ChildNumber(7 | HARD)); p!("child number debug", "{:?}", ChildNumber(7 | HARD));
    p!("size", "{}", MnemonicType::Words12); p!("language", "{:?}", Language::English);
    p!("error", "{}", lib32::Error::Depth); p!("error 39", "{}", Mnemonic::from_phrase("a b", Language::English).unwrap_err());
    v
}
fn full(p: &Print) -> (String, bool) { let mut o = Out(String::new(), usize::MAX); let r = (p.1)(&mut o).is_ok(); (o.0, r) }

fn outer() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    for n in [16usize, 64, 17] { v.push(plain(format!("root of {} bytes", n), move || format!("{:?} {:?}", XPrv::new(Src(fill(41, n))).map(|x| as_prv(&x)), XPrv::new_from_path(Src(fill(41, n)), &path_of(&[1 | HARD, 2])).map(|x| as_prv(&x))))); }
    for (i, p) in prints().iter().enumerate() { v.push(plain(format!("print {}", p.0), move || format!("{:?}", full(&prints()[i])))); }
    v.push(plain("extend a path", || { let mut p = path_of(&[1]); p.extend(Steps(vec![5, 4, 3 | HARD])); format!("{} {}", p, p.len()) }));
    v.push(plain("keys of a user's type", || {
        let r: Result<String, lib32::Error> = (|| {
            let x = KX::new(Src(fill(41, 32)))?;
            let c = x.derive_child(ChildNumber(1 | HARD))?;
            let d = c.derive_child(ChildNumber(2))?;
            let p = c.public_key().derive_child(ChildNumber(2))?;
            let e = KX::new_from_path(Src(fill(41, 32)), &path_of(&[1 | HARD, 2]))?;
            let f = KX::new(fill(41, 32))?.derive_from_path(&path_of(&[1 | HARD, 2]))?;
            Ok(format!("{} {} {} {} {} {} {:?} {:?} {}", x.to_string(Prefix::XPRV).as_str(), c.to_string(Prefix::ZPRV).as_str(), d.public_key().to_string(Prefix::XPUB), p.to_string(Prefix::XPUB), e == d, f == d, p, d, hex(&p.fingerprint())))
        })();
        format!("{:?}", r)
    }));
    v.push(plain("texts of a user's type", || {
        let p = Prv { k: fill32(43), a: attrs(3, [2, 3, 4, 5], 6, fill32(44)) };
        let (a, b) = (p.text(STD[0].1).parse::<KX>(), p.text(STD[0].1).parse::<KX>());
        format!("{:?} {:?} {:?}", a.as_ref().map(|x| x.to_bytes()), a.as_ref().ok().zip(b.as_ref().ok()).map(|(x, y)| x == y), p.neuter().text(STD[1].1).parse::<KY>().map(|y| (y.to_bytes(), y.to_string(Prefix::XPUB))))
    }));
    v
}
/// Operations of the library alone, one or two of each family.
fn inner() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    for (_, mut f) in families() { f.retain(|o| !o.fresh); let n = f.len(); if n > 1 { v.push(f.swap_remove(n / 2)); } if n > 0 { v.push(f.swap_remove(0)); } }
    for o in outer() { if o.name.starts_with("keys") || o.name.starts_with("texts") || o.name.starts_with("print seed HEX") || o.name.starts_with("print extended key") || o.name.starts_with("print path") || o.name.starts_with("extend") { v.push(o); } }
    v
}

/// C23
pub fn c23(r: &mut Run) {
    let name = "calls from within calls";
    let (os, is) = if r.dry() { (vec![], vec![]) } else { (outer(), inner()) };
    let alone = |v: &Vec<Op>| -> Vec<String> { if r.wants(name) { v.iter().map(|o| in_child(|| run_op(o).0.into_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| e)).collect() } else { vec![] } };
    let (ob, ib) = (alone(&os), alone(&is));
    r.section(name, format!("{} operations that call the user's code (byte sources, writers, iterators, key types), in which it calls each of {} operations: both results as in fresh processes, and again afterwards", os.len(), is.len()), |c| {
        let (i, j) = (c.pick(os.len()), c.pick(is.len()));
        c.note(|| format!("{} within {}", is[j].name, os[i].name));
        let n = child(|| {
            let g = || { let t = run_op(&is[j]).0; INSIDE.with(|v| v.borrow_mut().push(t)); };
            let f: &'static dyn Fn() = unsafe { std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(&g) };
            HOOK.with(|h| h.set(Some(f)));
            let got = run_op(&os[i]).0;
            HOOK.with(|h| h.set(None));
            same!(&got, &ob[i], "{:?} with {:?} in its user's code (expected: its result in a fresh process)", os[i].name, is[j].name);
            let ts = INSIDE.with(|v| std::mem::take(&mut *v.borrow_mut()));
            for t in &ts { same!(t, &ib[j], "{:?} called by the user's code in {:?} (expected: its result in a fresh process)", is[j].name, os[i].name); }
            same!(&run_op(&is[j]).0, &ib[j], "{:?} after {:?} with it inside", is[j].name, os[i].name);
            same!(&run_op(&os[i]).0, &ob[i], "{:?} after it was run with {:?} inside", os[i].name, is[j].name);
            Ok(ts.len() as u64 + 3)
        })?;
        c.steps(n);
        c.fact(if n > 3 { "the library was called from within" } else { "no user code ran" });
        c.state(&(i, j));
        Ok(())
    });
}
/// C23: the user's code panics and the panic is caught.
pub fn panics(r: &mut Run) {
    let name = "panics in the user's code";
    let (os, is) = if r.dry() { (vec![], vec![]) } else { (outer(), inner()) };
    let alone = |v: &Vec<Op>| -> Vec<String> { if r.wants(name) { v.iter().map(|o| in_child(|| run_op(o).0.into_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| e)).collect() } else { vec![] } };
    let (ob, ib) = (alone(&os), alone(&is));
    let most = r.q(40, 4000);
    r.section(name, format!("{} operations that call the user's code, which panics at its n-th call, for every n up to {}; the panic caught, each of {} operations gives what it gives in a fresh process, and so does the interrupted one", os.len(), most, is.len()), |c| {
        let (i, j) = (c.pick(os.len()), c.pick(is.len()));
        c.note(|| format!("{} after panics in {}", is[j].name, os[i].name));
        let n = child(|| {
            let mut n = 0;
            for k in 1..=most {
                let left = Cell::new(k);
                let g = || { left.set(left.get() - 1); if left.get() == 0 { panic!("the user's code") } };
                let f: &'static dyn Fn() = unsafe { std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(&g) };
                HOOK.with(|h| h.set(Some(f)));
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_op(&os[i]).0));
                HOOK.with(|h| h.set(None));
                if let Ok(t) = &got { same!(t, &ob[i], "{:?}, its user's code called fewer than {} times", os[i].name, k); break; }
                same!(&run_op(&is[j]).0, &ib[j], "{:?} after {:?} was broken off by a panic in call {} of its user's code", is[j].name, os[i].name, k);
                same!(&run_op(&os[i]).0, &ob[i], "{:?} after it was broken off by a panic in call {} of its user's code", os[i].name, k);
                n += 3;
            }
            Ok(n)
        })?;
        c.steps(n);
        c.fact(if n > 0 { "broken off" } else { "no user code ran" });
        c.state(&(i, j));
        Ok(())
    });
}
/// C26
pub fn failing_writers(r: &mut Run) {
    r.section("failing writers", "every printed form into a writer that fails after each number of bytes, and into one that fails once, at each write: an error, what was written is a beginning of the text, and the next print is whole", |c| {
        let ps = prints();
        let p = c.of(&ps);
        let (t, ok) = full(p);
        ensure!(ok, "printing {} failed", p.0);
        for n in 0..t.len() {
            let mut o = Out(String::new(), n);
            let r = guard(|| (p.1)(&mut o))?;
            ensure!(r.is_err(), "printing {} into a writer that fails after {} bytes reports success", p.0, n);
            ensure!(t.starts_with(&o.0), "printing {} into a writer that fails after {} bytes wrote {:?}", p.0, n, o.0);
            same!(full(p), (t.clone(), true), "{} printed after a failed print", p.0);
        }
        for n in 1..=t.len() {
            let mut o = Once(String::new(), n);
            let r = guard(|| (p.1)(&mut o))?;
            let failed = o.1 == 0 || o.1 > t.len();
            same!((r.is_ok(), failed || o.0 == t), (!failed, true), "printing {} into a writer whose write number {} fails (success reported; all written or failed)", p.0, n);
            if !failed { break; }
        }
        c.steps(t.len() as u64);
        c.state(&p.0);
        Ok(())
    });
}
