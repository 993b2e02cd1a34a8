//! Secrets are wiped before their memory is released (C20): the global allocator of this program
//! looks at watched blocks at the moment they are released.
use crate::common::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

const SLOTS: usize = 1024;
const LIVE: u32 = 1;
const WIPED: u32 = 2;
const DIRTY: u32 = 3;
struct Slot { used: AtomicU32, base: AtomicUsize, off: AtomicUsize, len: AtomicUsize, state: AtomicU32 }
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { used: AtomicU32::new(0), base: AtomicUsize::new(0), off: AtomicUsize::new(0), len: AtomicUsize::new(0), state: AtomicU32::new(0) };
static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static FILTER: [AtomicU32; 4096] = [ZERO; 4096];
fn bucket(p: usize) -> &'static AtomicU32 { &FILTER[(p >> 4) & 4095] }

pub struct Alloc;
unsafe fn released(p: usize) {
    if bucket(p).load(Acquire) == 0 { return; }
    for s in &TABLE {
        if s.base.load(Acquire) == p {
            let q = (p + s.off.load(Relaxed)) as *const u8;
            let dirty = (0..s.len.load(Relaxed)).any(|i| std::ptr::read_volatile(q.add(i)) != 0);
            s.base.store(0, Release);
            bucket(p).fetch_sub(1, AcqRel);
            s.state.store(if dirty { DIRTY } else { WIPED }, Release);
        }
    }
}
// While a thread drops an object with `dropping`, every block it releases is searched for pieces of the secrets.
const PIECE: usize = 8;
struct Search { needles: *const Vec<Vec<u8>>, found: Option<(usize, usize)> }
thread_local! { static SEARCH: std::cell::Cell<*mut Search> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
unsafe fn search(p: *const u8, n: usize) {
    let s = SEARCH.try_with(|s| s.get()).unwrap_or(std::ptr::null_mut());
    if s.is_null() || (*s).found.is_some() || n < PIECE { return; }
    for (k, v) in (*(*s).needles).iter().enumerate() {
        for w in v.windows(PIECE) {
            for i in 0..=n - PIECE {
                // volatile: the optimiser may take the contents of a released block for undefined
                if (0..PIECE).all(|j| std::ptr::read_volatile(p.add(i + j)) == w[j]) { (*s).found = Some((k, i)); return; }
            }
        }
    }
}
fn dropping(needles: &Vec<Vec<u8>>, f: impl FnOnce()) -> Res {
    let mut s = Search { needles, found: None };
    SEARCH.with(|x| x.set(&mut s));
    f();
    SEARCH.with(|x| x.set(std::ptr::null_mut()));
    match s.found { Some((k, i)) => Err(format!("a block released while dropping still holds, at offset {}, a piece of secret {} ({})", i, k, hex(&needles[k]))), None => Ok(()) }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { released(p as usize); search(p, l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if bucket(p as usize).load(Acquire) == 0 { return System.realloc(p, l, n); }
        // growing a watched block releases the old one
        let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}

/// A watched secret: where it lies and what it was.
pub struct Watch { slot: usize, at: usize, old: Vec<u8>, what: &'static str }
impl Watch {
    fn new(what: &'static str, base: usize, off: usize, len: usize) -> Watch {
        let slot = TABLE.iter().position(|s| s.used.compare_exchange(0, 1, AcqRel, Acquire).is_ok()).expect("watch table full");
        let s = &TABLE[slot];
        let old = unsafe { std::slice::from_raw_parts((base + off) as *const u8, len) }.to_vec();
        s.off.store(off, Relaxed); s.len.store(len, Relaxed); s.state.store(LIVE, Relaxed);
        bucket(base).fetch_add(1, AcqRel);
        s.base.store(base, Release);
        Watch { slot, at: base + off, old, what }
    }
    /// After its owner was dropped.
    fn gone(&self) -> Res {
        match TABLE[self.slot].state.load(Acquire) {
            WIPED => Ok(()),
            DIRTY => Err(format!("{} still in memory when it was released", self.what)),
            _ => {
                // never released: kept alive or handed to someone else; the secret must not be in it
                let now = unsafe { std::slice::from_raw_parts(self.at as *const u8, self.old.len()) };
                ensure!(now != &self.old[..], "{} was never released nor overwritten", self.what);
                Ok(())
            }
        }
    }
    fn live(&self) -> Res {
        same!(TABLE[self.slot].state.load(Acquire), LIVE, "{} of a live object was released", self.what);
        let now = unsafe { std::slice::from_raw_parts(self.at as *const u8, self.old.len()) };
        ensure!(now == &self.old[..], "{} of a live object changed", self.what);
        Ok(())
    }
    /// Stop watching without a verdict.
    fn forget(&self) {}
}
impl Drop for Watch {
    fn drop(&mut self) {
        let s = &TABLE[self.slot];
        let b = s.base.swap(0, AcqRel);
        if b != 0 { bucket(b).fetch_sub(1, AcqRel); }
        s.used.store(0, Release);
    }
}

/// A live object.  It is kept in a box, so that secrets an owner stores within itself can be watched as
/// well as those it keeps elsewhere.
pub enum Obj { M(Box<Mnemonic>), S(Box<Seed>), E(Box<ExtendedKey>), T(Box<zeroize::Zeroizing<String>>) }
/// The same, moved out of its box.
pub enum Loose { M(Mnemonic), S(Seed), E(Box<ExtendedKey>), T(zeroize::Zeroizing<String>) }
pub trait Thing: Sized + Send + 'static {
    fn dup(&self) -> Self;
    fn in_a_box(self);
    fn from_a_clone(self) -> Option<Self>;
}
impl Thing for Obj {
    fn dup(&self) -> Obj { match self { Obj::M(m) => Obj::M(m.clone()), Obj::S(s) => Obj::S(s.clone()), Obj::E(e) => Obj::E(e.clone()), Obj::T(t) => Obj::T(t.clone()) } }
    fn in_a_box(self) { drop(Box::new(self)) }
    fn from_a_clone(self) -> Option<Obj> { match self {
        Obj::M(mut m) => { let n = m.clone(); (*m).clone_from(&n); Some(Obj::M(m)) }
        Obj::S(mut s) => { let n = s.clone(); (*s).clone_from(&n); Some(Obj::S(s)) }
        o => { drop(o); None }
    } }
}
impl Thing for Loose {
    fn dup(&self) -> Loose { match self { Loose::M(m) => Loose::M(m.clone()), Loose::S(s) => Loose::S(s.clone()), Loose::E(e) => Loose::E(e.clone()), Loose::T(t) => Loose::T(t.clone()) } }
    fn in_a_box(self) { match self { Loose::M(m) => drop(Box::new(m)), Loose::S(s) => drop(Box::new(s)), o => drop(Box::new(o)) } }
    fn from_a_clone(self) -> Option<Loose> { match self {
        Loose::M(mut m) => { let n = m.clone(); m.clone_from(&n); Some(Loose::M(m)) }
        Loose::S(mut s) => { let n = s.clone(); s.clone_from(&n); Some(Loose::S(s)) }
        Loose::T(mut t) => { let n = t.clone(); t = n; Some(Loose::T(t)) }
        o => { drop(o); None }
    } }
}
fn within<T>(o: &T, at: *const u8) -> bool { let b = o as *const T as usize; (b..b + std::mem::size_of::<T>()).contains(&(at as usize)) }
fn spot<T>(what: &'static str, o: &T, v: &[u8]) -> Watch { let b = o as *const T as usize; if within(o, v.as_ptr()) { Watch::new(what, b, v.as_ptr() as usize - b, v.len()) } else { Watch::new(what, v.as_ptr() as usize, 0, v.len()) } }
impl Obj {
    fn watch(&self) -> Vec<Watch> {
        match self {
            Obj::M(m) => vec![spot("the phrase", &**m, m.phrase().as_bytes()), spot("the entropy", &**m, m.entropy())],
            Obj::S(s) => vec![spot("the seed", &**s, s.as_bytes())],
            Obj::E(e) => vec![spot("the key bytes", &**e, &e.key_bytes[..33])],
            Obj::T(t) => vec![spot("the extended private key text", &**t, t.as_str().as_bytes())],
        }
    }
    /// Whether a secret lies within the object itself, so that moving it leaves a copy behind.
    fn holds(&self) -> bool { match self { Obj::M(m) => within(&**m, m.phrase().as_ptr()) || within(&**m, m.entropy().as_ptr()), Obj::S(s) => within(&**s, s.as_bytes().as_ptr()), Obj::E(_) => true, Obj::T(t) => within(&**t, t.as_ptr()) } }
    fn loose(self) -> Loose { match self { Obj::M(m) => Loose::M(*m), Obj::S(s) => Loose::S(*s), Obj::E(e) => Loose::E(e), Obj::T(t) => Loose::T(*t) } }
    fn value(&self) -> Vec<u8> {
        match self {
            Obj::M(m) => { let mut v = m.phrase().as_bytes().to_vec(); v.push(0); v.extend_from_slice(m.entropy()); v }
            Obj::S(s) => s.as_bytes().to_vec(),
            Obj::E(e) => { let mut v = e.key_bytes.to_vec(); v.extend_from_slice(&e.attrs.chain_code); v.extend_from_slice(&e.prefix.to_bytes()); v }
            Obj::T(t) => t.as_str().as_bytes().to_vec(),
        }
    }
}
struct Held { o: Obj, w: Vec<Watch>, v: Vec<u8> }
impl Held { fn new(o: Obj) -> Held { let w = o.watch(); let v = o.value(); Held { o, w, v } } }

const KINDS: usize = 10;
const PHRASE: &str = "legal winner thank year wave sausage worth useful legal winner thank yellow";
fn make(k: usize, size: usize) -> Result<Obj, String> {
    let root = || XPrv::try_from(ek(Prefix::XPRV, &attrs(3, [1; 4], 7, fill32(3)), kb(&fill32(4)))).need("key");
    Ok(match k {
        0 => Obj::M(Box::new(Mnemonic::from_entropy(&background(4, SIZES[size]), Language::English).need("from_entropy")?)),
        1 => Obj::S(Box::new(Seed::new(&Mnemonic::from_phrase(PHRASE, Language::English).need("import")?, "pw"))),
        2 => Obj::E(Box::new(root()?.to_extended_key(Prefix::XPRV))),
        3 => Obj::T(Box::new(root()?.to_string(Prefix::XPRV))),
        4 => Obj::M(Box::new(Mnemonic::from_phrase(&format!("  {} ", m39::encode(Lang::En, &background(4, SIZES[size])).unwrap().replace(' ', "\u{3000} ")), Language::English).need("import")?)),
        5 => Obj::M(Box::new(Mnemonic::new(mtype([12, 15, 18, 21, 24][size]), Language::ChineseSimplified))),
        6 => Obj::E(Box::new(root()?.to_string(Prefix::ZPRV).parse().need("parse")?)),
        7 => Obj::E(Box::new(root()?.public_key().to_extended_key(Prefix::XPUB))),
        8 => Obj::M(Box::new(Mnemonic::from_entropy(&background(5, SIZES[size]), Language::ChineseSimplified).need("from_entropy")?)),
        _ => Obj::T(Box::new(root()?.derive_child(ChildNumber(HARD)).need("child")?.to_string(Prefix::TPRV))),
    })
}
const WAYS: [&str; 12] = ["directly", "out of a box", "with a vector", "on another thread", "during a panic", "during a panic on another thread", "by assignment", "by taking it out of an option", "moved twice, then dropped", "last of two shared handles", "by clone_from", "as a field, during return with an error"];
#[inline(never)]
fn fails<O>(_o: O) -> Result<(), ()> { let r: Result<(), ()> = Err(()); r?; Ok(()) }
/// Drop the object in one of the ways; anything it left behind that must live on comes back.
fn discard(o: Obj, way: usize) -> Option<Obj> {
    if o.holds() { return discard_one(o, way); }
    discard_one(o.loose(), way).map(|o| match o { Loose::M(m) => Obj::M(Box::new(m)), Loose::S(s) => Obj::S(Box::new(s)), Loose::E(e) => Obj::E(e), Loose::T(t) => Obj::T(Box::new(t)) })
}
fn discard_one<O: Thing + Sync>(o: O, way: usize) -> Option<O> {
    match way {
        0 => drop(o),
        1 => o.in_a_box(),
        2 => { let mut v = vec![o]; v.clear(); }
        3 => { let _ = std::thread::spawn(move || drop(o)).join(); }
        4 => { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _o = o; std::panic::resume_unwind(Box::new(1)); })); }
        5 => { let _ = std::thread::spawn(move || { let _o = o; std::panic::resume_unwind(Box::new(1)); }).join(); }
        6 => { let mut x = o; let y = x.dup(); x = y; return Some(x); }
        7 => { let mut x = Some(o); x.take(); }
        8 => { let a = o; let b = [a]; for x in b { drop(x) } }
        9 => { let a = std::sync::Arc::new(o); let b = a.clone(); drop(a); let _ = std::thread::spawn(move || drop(b)).join(); }
        10 => return o.from_a_clone(),
        _ => { let _ = fails(o); }
    }
    None
}
fn check_gone(w: &[Watch], how: &str) -> Res { for x in w { x.gone().map_err(|e| format!("{} (dropped {})", e, how))?; } Ok(()) }

pub fn c20(r: &mut Run) {
    r.section("every way to drop", format!("{} kinds of object (every constructor, both languages, serialised private and public keys, key texts) x 5 sizes x {} ways to be dropped x {{original, clone, clone of a clone}}", KINDS, WAYS.len()), |c| {
        let k = c.pick(KINDS);
        let size = if [0, 4, 5, 8].contains(&k) { c.pick(5) } else { 0 };
        let way = c.pick(WAYS.len());
        let gen = c.pick(3);
        c.note(|| format!("kind {} size {} generation {} dropped {}", k, size, gen, WAYS[way]));
        let mut all = vec![Held::new(make(k, size)?)];
        for _ in 0..gen { let o = all.last().unwrap().o.dup(); ensure!(o.value() == all[0].v, "a clone differs from its original"); all.push(Held::new(o)); }
        let Held { o, w, v } = all.pop().unwrap();
        let before = o.watch().len();
        let rest = discard(o, way);
        c.step();
        if way == 10 && rest.is_some() { for x in &w { let s = TABLE[x.slot].state.load(Acquire); ensure!(s != DIRTY, "{} still in memory when it was released (clone_from)", x.what); } }
        else { check_gone(&w, WAYS[way])?; }
        ensure!(before == w.len(), "watching");
        if let Some(x) = rest { ensure!(x.value() == v, "assigning a clone changed the value"); }
        for h in &all { for x in &h.w { x.live()?; } ensure!(h.o.value() == h.v, "another object changed"); }
        for h in all { let Held { o, w, .. } = h; drop(o); check_gone(&w, "after its clone")?; c.step(); }
        c.state(&(k, size, way, gen));
        Ok(())
    });
    r.section("consumed for the phrase", "mnemonics of every constructor, size and clone generation, consumed by into_phrase and by String::from, directly, on another thread and twice in a row", |c| {
        let k = *c.of(&[0usize, 4, 5, 8]);
        let size = c.pick(5);
        let how = c.pick(4);
        let cloned = c.flag();
        let a = Held::new(make(k, size)?);
        let h = if cloned { Held::new(a.o.dup()) } else { Held::new(make(k, size)?) };
        let Held { o, w, v } = h;
        let held = o.holds();
        let m = match o { Obj::M(m) => *m, _ => return Err("not a mnemonic".into()) };
        let want = m.phrase().to_string();
        let got: String = match how { 0 => m.into_phrase(), 1 => String::from(m), 2 => std::thread::spawn(move || m.into_phrase()).join().map_err(|_| "panicked")?, _ => { m.into() } };
        same!(got, want, "the phrase handed over");
        if held { c.step(); return Ok(()); }
        w[1].gone()?;
        // the phrase was handed over in place or copied; a copied one must be wiped as well
        if got.as_ptr() as usize == w[0].at { w[0].live()?; w[0].forget(); } else { w[0].gone()?; }
        ensure!(v.len() > want.len(), "value");
        for x in &a.w { x.live()?; }
        ensure!(a.o.value() == a.v, "another mnemonic changed");
        c.step();
        c.state(&(k, size, how, cloned));
        Ok(())
    });
    r.section("no copy left in what is released", format!("{} kinds x 5 sizes x {{original, clone, assigned by clone_from, used before}} in a box: no block released by the drop, whole box and spare capacity included, holds 8 bytes of the phrase, entropy, seed or key; the same for consuming a mnemonic", KINDS), |c| {
        let k = c.pick(KINDS);
        let size = if [0, 4, 5, 8].contains(&k) { c.pick(5) } else { 0 };
        let how = c.pick(5);
        let mut o = Box::new(make(k, size)?);
        if how == 1 { let d = Box::new(o.dup()); o = d; }
        if how == 2 { let d = Box::new(o.dup()); let mut x = Box::new(make(k, size)?); match (&mut *x, &*d) { (Obj::M(a), Obj::M(b)) => (**a).clone_from(b), (Obj::S(a), Obj::S(b)) => (**a).clone_from(b), (Obj::E(a), Obj::E(b)) => (**a).clone_from(b), (Obj::T(a), Obj::T(b)) => (**a).clone_from(b), _ => {} } o = x; }
        if how == 3 { match &*o {
            Obj::M(m) => { let m = &**m; let _ = (format!("{} {:?} {:x} {:X}", m, m, m, m), m.as_bytes(), Seed::new(m, "x"), Mnemonic::validate(m.phrase(), m.language())); }
            Obj::S(s) => { let s = &**s; let _ = (format!("{:?} {:x} {:X}", s, s, s), XPrv::new(s)); }
            Obj::E(e) => { let _ = (format!("{}", e), XPrv::try_from((**e).clone()).is_ok(), e.write_base58(&mut [0u8; ExtendedKey::MAX_BASE58_SIZE]).is_ok()); }
            Obj::T(t) => { let _ = t.parse::<XPrv>().is_ok(); }
        } }
        let needles: Vec<Vec<u8>> = match &*o {
            Obj::M(m) => vec![m.phrase().as_bytes().to_vec(), m.entropy().to_vec()],
            Obj::S(s) => vec![s.as_bytes().to_vec()],
            Obj::E(e) => if k == 7 { vec![] } else { vec![e.key_bytes[1..].to_vec()] },
            Obj::T(t) => vec![t.as_str().as_bytes()[16..].to_vec()],
        };
        c.note(|| format!("kind {} size {} how {}", k, size, how));
        if how == 4 {
            if o.holds() { return Ok(()); }
            let Obj::M(m) = *o else { return Ok(()) };
            let m = *m;
            let want = m.phrase().to_string();
            let mut got = String::new();
            dropping(&needles, || got = m.into_phrase())?;
            same!(got, want, "the phrase handed over");
        } else { dropping(&needles, move || drop(o))?; }
        c.step();
        c.state(&(k, size, how));
        Ok(())
    });
    let depth = r.q(5, 6);
    r.section("histories", format!("every history of up to {} of {{make one of 4 kinds, clone, drop, drop on a thread, drop in a panic, replace by a clone of another, hand over the phrase}} over up to 3 live objects: after each step the dropped secrets are wiped and the others intact", depth), |c| {
        let n = c.pick(depth) + 1;
        let mut live: Vec<Held> = vec![];
        for _ in 0..n {
            // enumerate the operations possible now
            let mut ops: Vec<(usize, usize)> = vec![];
            if live.len() < 3 { for k in 0..4 { ops.push((0, k)); } for i in 0..live.len() { ops.push((1, i)); } }
            for i in 0..live.len() { for d in 2..5 { ops.push((d, i)); } if matches!(live[i].o, Obj::M(_)) { ops.push((5, i)); } if live.len() > 1 { ops.push((6, i)); } }
            let (op, i) = *c.of(&ops);
            c.note(|| format!("{} {}", ["make kind", "clone", "drop", "drop on a thread", "drop in a panic", "take the phrase of", "replace by a clone of the next"][op], i));
            c.step();
            match op {
                0 => live.push(Held::new(make(i, 0)?)),
                1 => { let o = live[i].o.dup(); ensure!(o.value() == live[i].v, "a clone differs from its original"); live.push(Held::new(o)); }
                2..=4 => { let Held { o, w, .. } = live.remove(i); discard(o, [0, 3, 4][op - 2]); check_gone(&w, WAYS[[0, 3, 4][op - 2]])?; }
                5 => { let Held { o, w, .. } = live.remove(i); let held = o.holds(); if let Obj::M(m) = o { let s = (*m).into_phrase(); if held { continue; } w[1].gone()?; if s.as_ptr() as usize != w[0].at { w[0].gone()?; } } }
                _ => { let j = (i + 1) % live.len(); let x = live[j].o.dup(); let h = &mut live[i]; h.o = x; let w = std::mem::replace(&mut h.w, h.o.watch()); h.v = h.o.value(); check_gone(&w, "by assignment")?; }
            }
            for h in &live { for x in &h.w { x.live()?; } ensure!(h.o.value() == h.v, "another object changed"); }
            c.state(&live.iter().map(|h| &h.v).collect::<Vec<_>>());
        }
        for h in live { let Held { o, w, .. } = h; drop(o); check_gone(&w, "at the end")?; }
        Ok(())
    });
}
