//! Extended keys: master, child and public derivation, depth, paths (C08-C15, C28, C30).
use crate::common::*;
use kms::bip32::{ExtendedPrivateKey, ExtendedPublicKey};

// ---- a toy group: BIP32 over the integers modulo 251 ---------------------------------------
// The library's derivation is generic in the key type; over this group the "impossible" events
// (left half too large, zero sum) happen every few steps instead of once in 2^127.
pub const TOY_N: u32 = 251;
/// Left halves whose first byte is TOY_N or more are "not below the order".
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ToyPrv(pub u32);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ToyPub(pub u32);
fn toy_bytes(x: u32) -> [u8; 32] { let mut b = [0u8; 32]; b[0] = x as u8; b }
impl PrvT for ToyPrv {
    type PublicKey = ToyPub;
    fn from_bytes(b: &[u8; 32]) -> kms::bip32::Result<Self> { let x = b[0] as u32; if x == 0 || x >= TOY_N { Err(lib32::Error::Crypto) } else { Ok(ToyPrv(x)) } }
    fn to_bytes(&self) -> [u8; 32] { toy_bytes(self.0) }
    fn derive_child(&self, t: [u8; 32]) -> kms::bip32::Result<Self> {
        let t = t[0] as u32;
        if t >= TOY_N || (t + self.0) % TOY_N == 0 { Err(lib32::Error::Crypto) } else { Ok(ToyPrv((t + self.0) % TOY_N)) }
    }
    fn public_key(&self) -> ToyPub { ToyPub(self.0) }
}
impl PubT for ToyPub {
    fn from_bytes(b: [u8; 33]) -> kms::bip32::Result<Self> { let x = b[1] as u32; if b[0] != 2 || x == 0 || x >= TOY_N { Err(lib32::Error::Crypto) } else { Ok(ToyPub(x)) } }
    fn to_bytes(&self) -> [u8; 33] { let mut b = [0u8; 33]; b[0] = 2; b[1] = self.0 as u8; b }
    fn derive_child(&self, t: [u8; 32]) -> kms::bip32::Result<Self> {
        let t = t[0] as u32;
        if t >= TOY_N || (t + self.0) % TOY_N == 0 { Err(lib32::Error::Crypto) } else { Ok(ToyPub((t + self.0) % TOY_N)) }
    }
}
pub type TX = ExtendedPrivateKey<ToyPrv>;
pub type TP = ExtendedPublicKey<ToyPub>;
/// The model of the same.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Toy { pub x: u32, pub a: Attrs }
pub fn toy_pub_bytes(x: u32) -> [u8; 33] { let mut b = [0u8; 33]; b[0] = 2; b[1] = x as u8; b }
pub fn toy_master(seed: &[u8]) -> Result<Toy, m32::Err> {
    if ![16, 32, 64, 128].contains(&seed.len()) { return Err(m32::Err::SeedLength); }
    let (k, cc) = m32::split(&hmac512(b"Bitcoin seed", seed));
    if k[0] == 0 || k[0] as u32 >= TOY_N { return Err(m32::Err::Crypto); }
    Ok(Toy { x: k[0] as u32, a: Attrs { depth: 0, fp: [0; 4], cn: 0, cc } })
}
impl Toy {
    pub fn step(&self, i: u32, private: bool) -> Result<Toy, m32::Err> {
        if i >= HARD && !private { return Err(m32::Err::Hardened); }
        if self.a.depth == 255 { return Err(m32::Err::Depth); }
        let p = toy_pub_bytes(self.x);
        let mut m = vec![];
        if i >= HARD { m.push(0); m.extend_from_slice(&toy_bytes(self.x)); } else { m.extend_from_slice(&p); }
        m.extend_from_slice(&i.to_be_bytes());
        let (t, cc) = m32::split(&hmac512(&self.a.cc, &m));
        let x = (t[0] as u32 + self.x) % TOY_N;
        if t[0] as u32 >= TOY_N || x == 0 { return Err(m32::Err::Crypto); }
        let f = hash160(&p);
        Ok(Toy { x, a: Attrs { depth: self.a.depth + 1, fp: [f[0], f[1], f[2], f[3]], cn: i, cc } })
    }
    pub fn path(&self, p: &[u32], private: bool) -> Result<Toy, m32::Err> { p.iter().try_fold(self.clone(), |k, i| k.step(*i, private)) }
}
pub fn toy_prv(t: &Toy) -> Result<TX, String> { TX::try_from(ek(Prefix::XPRV, &t.a, kb(&toy_bytes(t.x)))).need("toy key") }
pub fn toy_pub(t: &Toy) -> Result<TP, String> { TP::try_from(ek(Prefix::XPUB, &t.a, toy_pub_bytes(t.x))).need("toy public key") }
fn match_tx(got: Result<TX, lib32::Error>, want: Result<Toy, m32::Err>, what: &str) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => { same!(Toy { x: g.private_key().0, a: mod_attrs(g.attrs()) }, w, "{}", what); Ok(()) }
        (Err(g), Err(w)) => { if w != m32::Err::Crypto { same!(g, err32(w), "{}: kind of error", what); } Ok(()) }
        (g, w) => Err(format!("{}: got {:?}, expected {:?}", what, g.map(|g| (g.private_key().0, mod_attrs(g.attrs()))), w)),
    }
}
/// `free`: the two errors of a hardened step at the depth limit are both right for a public key.
fn match_tp(got: Result<TP, lib32::Error>, want: Result<Toy, m32::Err>, free: bool, what: &str) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => { same!(Toy { x: g.public_key().0, a: mod_attrs(g.attrs()) }, w, "{}", what); Ok(()) }
        (Err(g), Err(w)) => { if w != m32::Err::Crypto && !free { same!(g, err32(w), "{}: kind of error", what); } Ok(()) }
        (g, w) => Err(format!("{}: got {:?}, expected {:?}", what, g.map(|g| (g.public_key().0, mod_attrs(g.attrs()))), w)),
    }
}

// ---- C08 -----------------------------------------------------------------------------------
pub fn c08(r: &mut Run) {
    crate::near::sections(r, &["roots"]);
    let lens = [16usize, 32, 64, 128];
    r.section("seed lengths", format!("all lengths 0..={} and valid lengths plus 2^8, 2^16", r.q(5000, 20_000)), {
        let max = r.q(5000usize, 20_000);
        move |c| {
            let mut far = vec![];
            for k in [256usize, 65536] { for l in lens { far.push(l + k); } }
            let i = c.pick(max + 1 + far.len());
            let n = if i <= max { i } else { far[i - max - 1] };
            for tag in 0..3u64 {
                let s = match tag { 0 => vec![0; n], 1 => vec![0xff; n], _ => fill(tag, n) };
                c.step();
                match_prv(XPrv::new(&s), m32::master(&s), !lens.contains(&n), &format!("root of a {}-byte seed", n))?;
                match_prv(XPrv::new_from_path(&s, &DerivationPath::default()), m32::master(&s), !lens.contains(&n), &format!("empty path from a {}-byte seed", n))?;
            }
            c.fact(if lens.contains(&n) { "valid length" } else { "invalid length" });
            Ok(())
        }
    });
    let far = r.q(300usize, 1100);
    r.section("contents that look like something else", format!("every length 0..={} x some 100 contents (texts in common notations, framed and padded data, keys, patterns)", far), |c| {
        let n = c.pick(far + 1);
        for (what, s) in looks(n) {
            c.step();
            match_prv(XPrv::new(&s), m32::master(&s), !lens.contains(&n), &format!("root of a {}-byte seed ({}) {}", n, what, hex(&s)))?;
            match_prv(XPrv::new_from_path(&s, &DerivationPath::default()), m32::master(&s), !lens.contains(&n), &format!("empty path from a {}-byte seed ({}) {}", n, what, hex(&s)))?;
            if lens.contains(&n) { c.state(&s); }
        }
        Ok(())
    });
    r.section("seed contents", format!("4 lengths x {} seeds enumerated by counter, plus every single-bit seed; keys and chain codes with leading zero bytes occur", r.q(100_000, 4_000_000)), {
        let blocks = r.q(1000, 40_000);
        move |c| {
            let n = *c.of(&lens);
            if c.pick(2) == 0 {
                let b = c.pick(blocks) as u64;
                for i in b * 100..b * 100 + 100 {
                    let mut s = vec![0u8; n];
                    s[n - 8..].copy_from_slice(&i.to_be_bytes());
                    if i % 2 == 1 { s[..8].copy_from_slice(&i.to_le_bytes()); }
                    let w = m32::master(&s);
                    if let Ok(w) = &w { if w.k[0] == 0 { c.fact("key with a leading zero byte") } if w.a.cc[0] == 0 { c.fact("chain code with a leading zero byte") } c.state(&w.k); }
                    match_prv(XPrv::new(&s), w, false, &format!("root of seed {}", hex(&s)))?;
                    c.step();
                }
            } else {
                let i = c.pick(n * 8);
                for inv in [0u8, 0xff] {
                    let mut s = vec![inv; n];
                    s[i / 8] ^= 1 << (i % 8);
                    match_prv(XPrv::new(&s), m32::master(&s), false, &format!("root of seed {}", hex(&s)))?;
                    c.step();
                }
            }
            Ok(())
        }
    });
    r.section("every byte of the seed", "4 lengths x every position x all 256 values", |c| {
        let n = *c.of(&lens);
        let i = c.pick(n);
        for v in 0..=255u8 {
            let mut s = fill(9, n);
            s[i] = v;
            match_prv(XPrv::new(&s), m32::master(&s), false, &format!("root of seed {}", hex(&s)))?;
            c.step();
        }
        Ok(())
    });
    r.section("invalid left half", "toy key type (order 251): seeds whose left half is zero or not below the order are refused, others accepted", |c| {
        let n = *c.of(&lens);
        let b = c.pick(40) as u64;
        for i in b * 100..b * 100 + 100 {
            let s = fill(1000 + i, n);
            let w = toy_master(&s);
            c.fact(if w.is_ok() { "valid" } else { "invalid left half" });
            match_tx(TX::new(&s), w, &format!("toy root of seed {}", hex(&s)))?;
            c.step();
        }
        Ok(())
    });
    crate::rare::roots(r);
}

// ---- C09, C10 ------------------------------------------------------------------------------
fn check_child(c: &mut Ch, p: &Prv, i: u32) -> Res {
    let x = xprv(p)?;
    let want = p.child(i);
    c.step();
    c.note(|| format!("child {} of {:?} -> {:?}", i, p, want));
    let got = x.derive_child(ChildNumber(i));
    let what = format!("child {:#x} of key {} (chain code {}, depth {})", i, hex(&p.k), hex(&p.a.cc), p.a.depth);
    match_prv(got, want.clone(), want == Err(m32::Err::Depth), &what)?;
    same!(as_prv(&x), *p, "parent after deriving a child");
    if let Ok(w) = &want { c.state(w); if w.k[0] == 0 { c.fact("child key with a leading zero byte") } }
    Ok(())
}
fn check_pair(c: &mut Ch, p: &Prv, i: u32) -> Res {
    let x = xprv(p)?;
    let q = p.neuter();
    let xp = x.public_key();
    same!(as_pub(&xp), q, "public half of {}", hex(&p.k));
    let cn = ChildNumber(i);
    let what = format!("public child {:#x} of key {} (chain code {}, depth {})", i, hex(&p.k), hex(&p.a.cc), p.a.depth);
    c.step();
    let a = x.derive_child(cn).map(|y| y.public_key());
    let b = xp.derive_child(cn);
    c.note(|| format!("{}: derive-then-neuter {:?}, neuter-then-derive {:?}", what, a.as_ref().map(as_pub), b.as_ref().map(as_pub)));
    if i >= HARD {
        let at_limit = p.a.depth == 255;
        match &b { Ok(y) => return Err(format!("{}: an extended public key derived a hardened child {:?}", what, as_pub(y))), Err(e) => if !at_limit { same!(*e, lib32::Error::ChildNumber, "{}: kind of error", what) } }
        c.fact("hardened refused");
        return Ok(());
    }
    match (a, b) {
        (Ok(a), Ok(b)) => {
            same!(as_pub(&b), as_pub(&a), "{}", what);
            ensure!(a == b, "{}: the two keys print alike but compare different", what);
            let w = p.child(i).map(|k| k.neuter());
            match_pub(Ok(b), w, true, &what)?;
            c.fact("agree");
        }
        (Err(a), Err(b)) => { same!(a, b, "{}: errors", what); c.fact("both refuse"); }
        (a, b) => return Err(format!("{}: private side {:?}, public side {:?}", what, a.map(|k| as_pub(&k)), b.map(|k| as_pub(&k)))),
    }
    Ok(())
}
fn key_grid(r: &Run) -> (Vec<[u8; 32]>, Vec<[u8; 32]>, Vec<u8>, Vec<u32>) { (keys(r.thorough), codes(), depths(), cns()) }

/// Reachable keys: breadth of BIP32 trees from several seeds over an alphabet of child numbers.
fn tree(c: &mut Ch, depth: usize, alpha: &[u32]) -> (Vec<u8>, Vec<u32>) {
    let s = c.pick(3);
    let n = [16usize, 64, 32][s];
    let seed = fill(50 + s as u64, n);
    let d = c.pick(depth + 1);
    (seed, (0..d).map(|_| *c.of(alpha)).collect())
}

pub fn c09(r: &mut Run) {
    crate::near::sections(r, &["children"]);
    let (ks, ccs, ds, is) = key_grid(r);
    r.section("structured keys", format!("{} private keys x {} chain codes x {} child numbers (every power of two and its neighbours, both halves)", ks.len(), ccs.len(), is.len()), |c| {
        let k = *c.of(&ks);
        let cc = *c.of(&ccs);
        let d = if cc == ccs[0] { 0 } else { 3 };
        for i in &is { check_child(c, &Prv { k, a: attrs(d, [1, 2, 3, 4], 7, cc) }, *i)?; }
        Ok(())
    });
    r.section("contents that look like something else", "some 100 32-byte contents (texts in common notations, framed and padded data, patterns) as private key and as chain code, fingerprints and parent numbers likewise", |c| {
        let ks: Vec<[u8; 32]> = looks(32).into_iter().map(|x| x.1.try_into().unwrap()).collect();
        let k = *c.of(&ks);
        let v = U256::from_be(&k);
        let fp = [k[0], k[1], k[2], k[3]];
        let pc = u32::from_be_bytes([k[31], k[30], k[29], k[28]]);
        if v != U256::from_u64(0) && v.lt(&ec::N) { for i in [0, 1, 77, HARD - 1, HARD, HARD + 1, u32::MAX] { check_child(c, &Prv { k, a: attrs(2, fp, pc, fill32(401)) }, i)?; } c.fact("as private key") }
        for q in [fill32(106), u256(1)] { for d in [1u8, 2, 254] { for i in [0, 1, 77, HARD - 1, HARD, HARD + 1, u32::MAX] { check_child(c, &Prv { k: q, a: attrs(d, fp, pc, k) }, i)?; } } }
        let n = c.pick(if c_thorough() { ks.len() } else { 6 }) * 37 % ks.len();
        if v != U256::from_u64(0) && v.lt(&ec::N) { for i in [0, 1, 77, HARD - 1, HARD, HARD + 1, u32::MAX] { check_child(c, &Prv { k, a: attrs(2, fp, pc, ks[n]) }, i)?; } }
        Ok(())
    });
    r.section("attributes", format!("{} depths x 4 fingerprints x parent child numbers x child numbers", ds.len()), |c| {
        let d = *c.of(&ds);
        let fp = *c.of(&fps());
        let pc = *c.of(&[0u32, 1, HARD, u32::MAX]);
        let k = *c.of(&ks[..12.min(ks.len())]);
        for i in [0, 1, 0x7fff_ffff, HARD, HARD + 1, u32::MAX] { check_child(c, &Prv { k, a: attrs(d, fp, pc, ccs[0]) }, i)?; }
        Ok(())
    });
    let dense = r.q(65_536u32, 1_048_576);
    r.section("dense child numbers", format!("child numbers 0..{0}, 2^31-{0}.., 2^31..+{0}, ..2^32-1 of one key", dense), |c| {
        let base = *c.of(&[0u32, HARD - dense, HARD, u32::MAX - dense + 1]);
        let b = c.pick((dense / 64) as usize) as u32;
        let p = Prv { k: fill32(106), a: attrs(0, [0; 4], 0, fill32(402)) };
        for j in 0..64 { check_child(c, &p, base + b * 64 + j)?; }
        Ok(())
    });
    r.section("derivation tree", format!("3 seeds, all paths of up to {} steps over {{0, 1, 2^31-1, 0', 44', 2^31-1'}}", r.q(5, 7)), {
        let d = r.q(5, 7);
        move |c| {
            let (seed, p) = tree(c, d, &[0, 1, HARD - 1, HARD, HARD + 44, u32::MAX]);
            let mut m = m32::master(&seed);
            let mut x = XPrv::new(&seed);
            for i in &p {
                m = m.and_then(|k| k.child(*i));
                x = x.and_then(|k| k.derive_child(ChildNumber(*i)));
                c.step();
            }
            if let Ok(m) = &m { c.state(m); }
            match_prv(x, m, false, &format!("path {}", m32::path_text(&p)))
        }
    });
    r.section("chained keys", format!("a chain of {} generations, each key the parent of the next, alternating child number kinds", r.q(12_000, 400_000)), {
        let n = r.q(1000usize, 33_334);
        move |c| {
            let s = c.pick(12) as u64;
            let mut p = Prv { k: fill32(600 + s), a: attrs(0, [0; 4], 0, fill32(700 + s)) };
            for j in 0..n {
                let i = is[(j * 7 + s as usize) % is.len()];
                check_child(c, &p, i)?;
                let mut q = p.child(i).map_err(|e| format!("{:?}", e)).unwrap();
                if q.a.depth > 250 { q.a.depth = 1; }
                p = q;
            }
            Ok(())
        }
    });
    r.section("toy group", "order-251 key type: every key x every child number of an alphabet x 6 chain codes, so each parent+left-half sum modulo the order occurs", |c| {
        let x = 1 + c.pick(250) as u32;
        let cc = fill32(800 + c.pick(6) as u64);
        for i in cns() {
            let t = Toy { x, a: attrs(9, [5; 4], 1, cc) };
            match_tx(toy_prv(&t)?.derive_child(ChildNumber(i)), t.step(i, true), &format!("toy child {} of {}", i, x))?;
            c.step();
        }
        Ok(())
    });
    crate::rare::children(r, check_child);
}
pub fn c10(r: &mut Run) {
    crate::near::sections(r, &["children", "public paths"]);
    let (ks, ccs, ds, is) = key_grid(r);
    r.section("structured keys", format!("{} private keys x {} chain codes x {} child numbers", ks.len(), ccs.len(), is.len()), |c| {
        let k = *c.of(&ks);
        let cc = *c.of(&ccs);
        let d = if cc == ccs[0] { 0 } else { 3 };
        for i in &is { check_pair(c, &Prv { k, a: attrs(d, [1, 2, 3, 4], 7, cc) }, *i)?; }
        Ok(())
    });
    r.section("contents that look like something else", "some 100 32-byte contents (texts in common notations, framed and padded data, patterns) as private key and as chain code, fingerprints and parent numbers likewise", |c| {
        let ks: Vec<[u8; 32]> = looks(32).into_iter().map(|x| x.1.try_into().unwrap()).collect();
        let k = *c.of(&ks);
        let v = U256::from_be(&k);
        let fp = [k[0], k[1], k[2], k[3]];
        let pc = u32::from_be_bytes([k[31], k[30], k[29], k[28]]);
        if v != U256::from_u64(0) && v.lt(&ec::N) { for i in [0, 1, 77, HARD - 1] { check_pair(c, &Prv { k, a: attrs(2, fp, pc, fill32(401)) }, i)?; } c.fact("as private key") }
        for q in [fill32(106), u256(1)] { for d in [1u8, 2, 254] { for i in [0, 1, 77, HARD - 1] { check_pair(c, &Prv { k: q, a: attrs(d, fp, pc, k) }, i)?; } } }
        let n = c.pick(if c_thorough() { ks.len() } else { 6 }) * 37 % ks.len();
        if v != U256::from_u64(0) && v.lt(&ec::N) { for i in [0, 1, 77, HARD - 1] { check_pair(c, &Prv { k, a: attrs(2, fp, pc, ks[n]) }, i)?; } }
        Ok(())
    });
    r.section("attributes", "depths x fingerprints x parent child numbers x child numbers; the public half keeps every attribute", |c| {
        let d = *c.of(&ds);
        let fp = *c.of(&fps());
        let pc = *c.of(&[0u32, 1, HARD, u32::MAX]);
        let k = *c.of(&ks[..12]);
        for i in [0, 1, 0x7fff_ffff, HARD, HARD + 1, u32::MAX] { check_pair(c, &Prv { k, a: attrs(d, fp, pc, ccs[0]) }, i)?; }
        Ok(())
    });
    let dense = r.q(16_384u32, 262_144);
    r.section("dense child numbers", format!("child numbers 0..{0} and 2^31-{0}..2^31+64 of one key", dense), |c| {
        let base = *c.of(&[0u32, HARD - dense + 64]);
        let b = c.pick((dense / 64) as usize) as u32;
        let p = Prv { k: fill32(107), a: attrs(1, [9; 4], 5, fill32(403)) };
        for j in 0..64 { check_pair(c, &p, base + b * 64 + j)?; }
        Ok(())
    });
    r.section("paths", format!("3 seeds: all paths of up to {} steps over {{0, 1, 2^31-1, 0', 2^31-1'}} split at every point into a private and a public part", r.q(5, 7)), {
        let dd = r.q(5, 7);
        move |c| {
            let (seed, p) = tree(c, dd, &[0, 1, HARD - 1, HARD, u32::MAX]);
            let root = m32::master(&seed).map_err(|e| format!("{:?}", e)).unwrap();
            let want = root.path(&p);
            for cut in 0..=p.len() {
                let x = XPrv::new(&seed).need("root")?.derive_from_path(&path_of(&p[..cut])).need("private part")?;
                let got = x.public_key().derive_from_path(&path_of(&p[cut..]));
                c.step();
                let what = format!("{} with the public half taken after {} steps", m32::path_text(&p), cut);
                match p[cut..].iter().any(|i| *i >= HARD) {
                    true => match got { Err(e) => { same!(e, lib32::Error::ChildNumber, "{}: kind of error", what); c.fact("hardened refused") } Ok(k) => return Err(format!("{}: gave {:?} in spite of a hardened step", what, as_pub(&k))) },
                    false => { match_pub(got, want.clone().map(|k| k.neuter()), false, &what)?; c.fact("agree"); }
                }
            }
            c.state(&p);
            Ok(())
        }
    });
    r.section("negated keys", "keys k and n-k (same x coordinate, other sign) x child numbers", |c| {
        let k = *c.of(&ks);
        let neg = ec::FN.neg(&U256::from_be(&k)).to_be();
        for i in [0u32, 1, 0x7fff_ffff, HARD] {
            for kk in [k, neg] { check_pair(c, &Prv { k: kk, a: attrs(2, [8; 4], 3, ccs[0]) }, i)?; }
        }
        Ok(())
    });
    r.section("toy group", "order-251 key type: every key x child numbers x 6 chain codes, private and public side by side, one to three steps", |c| {
        let x = 1 + c.pick(250) as u32;
        let cc = fill32(810 + c.pick(6) as u64);
        for i in cns().into_iter().step_by(3) {
            for j in [None, Some(0u32), Some(HARD - 1), Some(HARD)] {
                let mut p = vec![i]; p.extend(j);
                let t = Toy { x, a: attrs(9, [5; 4], 1, cc) };
                let a = toy_prv(&t)?.derive_from_path(&path_of(&p));
                let b = toy_prv(&t)?.public_key().derive_from_path(&path_of(&p));
                match_tp(b, t.path(&p, false), false, &format!("toy public path {} from {}", m32::path_text(&p), x))?;
                match_tx(a, t.path(&p, true), &format!("toy private path {} from {}", m32::path_text(&p), x))?;
                c.steps(2);
            }
        }
        Ok(())
    });
    crate::rare::children(r, check_pair);
}

// ---- C11 -----------------------------------------------------------------------------------
pub fn c11(r: &mut Run) {
    let ks = keys(true);
    // the tweak seam: what a derivation step does with the left half
    r.section("tweaks", format!("{} keys x left halves 0, 1, n-1, n, n+1, 2^256-1, n-k, n-k+-1, k, 2^j, and halves above n with small or large excess; private and public agree", ks.len()), |c| {
        let k = *c.of(&ks);
        let neg = ec::FN.neg(&U256::from_be(&k));
        let mut ts: Vec<[u8; 32]> = vec![u256(0), u256(1), n_minus(1), n_plus(0), n_plus(1), n_plus(2), [0xff; 32], neg.to_be(), ec::FN.add(&neg, &ec::ONE).to_be(), ec::FN.sub(&neg, &ec::ONE).to_be(), k, fill32(3), pow2(255), ec::P.to_be()];
        for j in 0..32 { ts.push(pow2(j * 8)); let mut t = n_plus(0); t[j] = 0xff; ts.push(t); }
        for t in ts {
            let sk = <libsecp256k1::SecretKey as PrvT>::from_bytes(&k).need("key")?;
            let pk = sk.public_key();
            let a = PrvT::derive_child(&sk, t).map(|s| PrvT::to_bytes(&s));
            let b = PubT::derive_child(&pk, t).map(|s| PubT::to_bytes(&s));
            c.steps(2);
            let what = format!("key {} with left half {}", hex(&k), hex(&t));
            let w = m32::tweak_prv(&k, &t);
            match (&a, &b, w) {
                (Err(_), Err(_), None) => c.fact("refused"),
                // BIP32 does not rule out a zero left half; refusing the step is equally safe
                (Err(_), Err(_), Some(_)) if t == [0; 32] => c.fact("refused"),
                (Ok(a), Ok(b), Some(w)) => { same!(*a, w, "{}: private", what); same!(*b, m32::point(&w), "{}: public", what); c.fact("derived"); }
                (a, b, w) => return Err(format!("{}: private {:?}, public {:?}, expected {:?}", what, a.as_ref().map(|x| hex(x)), b.as_ref().map(|x| hex(x)), w.map(|x| hex(&x)))),
            }
        }
        Ok(())
    });
    r.section("key range", "scalars 0, 1, n-1, n, n+1, .. 2^256-1 as private keys; points off the curve, at x >= p, with every marker byte as public keys", |c| {
        let mut v = vec![u256(0), u256(1), n_minus(1), n_plus(0), n_plus(1), [0xff; 32], ec::P.to_be()];
        for j in 0..32 { let mut t = n_plus(0); t[j] = t[j].wrapping_add(1); v.push(t); let mut t = n_plus(0); t[j] = t[j].wrapping_sub(1); v.push(t); }
        let s = *c.of(&v);
        let got = <libsecp256k1::SecretKey as PrvT>::from_bytes(&s);
        same!(got.is_ok(), ec::valid_scalar(&s).is_some(), "acceptance of private key {}", hex(&s));
        for m in 0..=255u8 {
            let mut b = [0u8; 33]; b[0] = m; b[1..].copy_from_slice(&s);
            let got = <libsecp256k1::PublicKey as PubT>::from_bytes(b);
            same!(got.is_ok(), ec::decompress(&b).is_some(), "acceptance of public key {}", hex(&b));
            c.step();
        }
        Ok(())
    });
    // whole derivations over the toy group
    let depth = r.q(4usize, 5);
    r.section("impossible steps on a path", format!("order-251 key type: every start key x 2 chain codes x every path of up to {} steps over 5 child numbers; single steps, whole paths, and the step after a failure", depth), |c| {
        let x = 1 + c.pick(250) as u32;
        let cc = fill32(820 + c.pick(2) as u64);
        let t = Toy { x, a: attrs(1, [5; 4], 1, cc) };
        let alpha = [0u32, 1, HARD - 1, HARD, u32::MAX];
        let d = 1 + c.pick(depth);
        let total = alpha.len().pow(d as u32);
        for n in 0..total {
            let mut m = n;
            let p: Vec<u32> = (0..d).map(|_| { let i = alpha[m % 5]; m /= 5; i }).collect();
            let w = t.path(&p, true);
            c.fact(if w.is_ok() { "possible" } else { "impossible" });
            match_tx(toy_prv(&t)?.derive_from_path(&path_of(&p)), w, &format!("toy path {} from {}", m32::path_text(&p), x))?;
            let wp = t.path(&p, false);
            match_tp(toy_pub(&t)?.derive_from_path(&path_of(&p)), wp.clone(), false, &format!("toy public path {} from {}", m32::path_text(&p), x))?;
            if p.iter().all(|i| *i < HARD) { same!(t.path(&p, true).is_ok(), wp.is_ok(), "model sides"); }
            // step by step
            let mut k = toy_prv(&t);
            let mut mk = Ok(t.clone());
            for i in &p {
                let nk: Result<Toy, m32::Err> = mk.clone().and_then(|q: Toy| q.step(*i, true));
                if let Ok(kk) = &k {
                    let got = kk.derive_child(ChildNumber(*i));
                    match_tx(got.clone(), nk.clone(), &format!("toy step {} on {}", i, m32::path_text(&p)))?;
                    k = got.map_err(|e| format!("{:?}", e));
                }
                mk = nk;
                if mk.is_err() { break; }
            }
            c.steps(3);
        }
        c.state(&(x, cc, d));
        Ok(())
    });
    r.section("impossible roots", "order-251 key type: 400 seeds x paths of 0..2 steps from the seed", |c| {
        let s = fill(2000 + c.pick(400) as u64, *c.of(&[16usize, 64]));
        let root = toy_master(&s);
        for p in [&[][..], &[0][..], &[HARD][..], &[1, HARD + 1][..]] {
            let w = root.clone().and_then(|t| t.path(p, true));
            c.fact(if w.is_ok() { "possible" } else { "impossible" });
            match_tx(TX::new_from_path(&s, &path_of(p)), w, &format!("toy {} from seed {}", m32::path_text(p), hex(&s)))?;
            c.step();
        }
        Ok(())
    });
}

// ---- C12 -----------------------------------------------------------------------------------
pub fn c12(r: &mut Run) {
    crate::near::sections(r, &["children"]);
    // deterministic index choice keeping the toy chain alive for long paths
    fn live_path(t: &Toy, n: usize, private: bool) -> Vec<u32> {
        let mut k = t.clone();
        let mut v = vec![];
        for j in 0..n {
            let base = if private && j % 3 == 1 { HARD } else { 0 };
            let mut i = base;
            while k.a.depth < 255 { match k.step(i, private) { Ok(n) => { k = n; break; } Err(_) => i += 1 } }
            v.push(i);
        }
        v
    }
    r.section("toy group", "order-251 key type: every start depth 0..=255 x every path length 0..=20, and every length to 530 from depths 0, 1, 254, 255; private and public", |c| {
        let d = c.pick(256) as u8;
        let private = c.flag();
        let far = [0u8, 1, 254, 255].contains(&d);
        let max = if far { 530 } else { 20 };
        let t = Toy { x: 77, a: attrs(d, [5; 4], 1, fill32(830)) };
        let p = live_path(&t, max, private);
        for n in 0..=max {
            // skip the middle of the long runs except around the limit
            if far && n > 20 && n % 7 != 0 && !(250..=262).contains(&n) && !(505..=515).contains(&n) && !c_thorough() { continue; }
            let w = t.path(&p[..n], private);
            let should = d as usize + n <= 255;
            if w.is_ok() != should { panic!("model: depth {} length {}", d, n) }
            let what = format!("toy path of {} steps from depth {}", n, d);
            if private { match_tx(toy_prv(&t)?.derive_from_path(&path_of(&p[..n])), w, &what)?; } else { match_tp(toy_pub(&t)?.derive_from_path(&path_of(&p[..n])), w, false, &what)?; }
            c.step();
            c.fact(if should { "within the limit" } else { "refused" });
        }
        c.state(&(d, private));
        Ok(())
    });
    r.section("real keys, single steps", "every depth 0..=255 x child numbers, private and public", |c| {
        let d = c.pick(256) as u8;
        let k = fill32(840);
        let p = Prv { k, a: attrs(d, [7; 4], 9, fill32(841)) };
        for i in [0u32, 1, 255, 256, HARD - 1, HARD, u32::MAX] {
            let x = xprv(&p)?;
            match_prv(x.derive_child(ChildNumber(i)), p.child(i), d == 255, &format!("step {} from depth {}", i, d))?;
            if i < HARD { match_pub(x.public_key().derive_child(ChildNumber(i)), p.neuter().child(i), d == 255, &format!("public step {} from depth {}", i, d))?; }
            c.steps(2);
        }
        c.state(&d);
        Ok(())
    });
    r.section("real keys, long paths", "paths of 254..258, 511..513 steps from a seed and from a root key, private and public; hardened or not", |c| {
        let n = *c.of(&[0usize, 1, 254, 255, 256, 257, 258, 511, 512, 513]);
        let kind = c.pick(3);
        let seed = fill(60, 64);
        let p: Vec<u32> = (0..n).map(|j| if kind == 1 { HARD + j as u32 } else { j as u32 }).collect();
        let root = m32::master(&seed).unwrap();
        c.step();
        let what = format!("path of {} steps from the root", n);
        match kind {
            2 => match_pub(XPrv::new(&seed).need("root")?.public_key().derive_from_path(&path_of(&p)), root.neuter().path(&p), true, &what),
            _ => {
                match_prv(XPrv::new_from_path(&seed, &path_of(&p)), root.path(&p), true, &what)?;
                match_prv(XPrv::new(&seed).need("root")?.derive_from_path(&path_of(&p)), root.path(&p), true, &what)
            }
        }
    });
}
static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_thorough(t: bool) { THOROUGH.store(t, std::sync::atomic::Ordering::Relaxed) }
fn c_thorough() -> bool { THOROUGH.load(std::sync::atomic::Ordering::Relaxed) }

// ---- C13 -----------------------------------------------------------------------------------
pub fn c13(r: &mut Run) {
    crate::near::sections(r, &["paths", "long paths", "public paths"]);
    let d = r.q(4, 6);
    r.section("real keys", format!("3 seeds: all paths of up to {} steps over {{0, 5, 2^31-1, 0', 44'}}, every split into three consecutive parts, from the seed and from the root, private and public", d), |c| {
        let (seed, p) = tree(c, d, &[0, 5, HARD - 1, HARD, HARD + 44]);
        let want = m32::master(&seed).and_then(|k| k.path(&p));
        let what = m32::path_text(&p);
        match_prv(XPrv::new_from_path(&seed, &path_of(&p)), want.clone(), false, &format!("{} from the seed", what))?;
        c.step();
        for i in 0..=p.len() {
            for j in i..=p.len() {
                let k = XPrv::new_from_path(&seed, &path_of(&p[..i])).need("first part")?;
                let k = k.derive_from_path(&path_of(&p[i..j])).need("second part")?;
                match_prv(k.derive_from_path(&path_of(&p[j..])), want.clone(), false, &format!("{} split after {} and {} steps", what, i, j))?;
                c.step();
            }
        }
        if p.iter().all(|i| *i < HARD) {
            let root = XPrv::new(&seed).need("root")?.public_key();
            match_pub(root.clone().derive_from_path(&path_of(&p)), want.map(|k| k.neuter()), false, &format!("{} on the public side", what))?;
            for i in 0..=p.len() {
                let k = root.clone().derive_from_path(&path_of(&p[..i])).need("first part")?.derive_from_path(&path_of(&p[i..])).need("second part")?;
                ensure!(k == root.clone().derive_from_path(&path_of(&p)).need("whole")?, "{} split after {} on the public side", what, i);
                c.step();
            }
        }
        c.state(&p);
        Ok(())
    });
    r.section("errors along a path", "order-251 key type (every fifth step impossible), depths 250..255 and public keys with hardened steps: the first failing step decides, for every path of up to 4 steps over 4 child numbers", |c| {
        let x = 1 + c.pick(125) as u32 * 2;
        let d0 = *c.of(&[3u8, 252, 253, 254, 255]);
        let private = c.flag();
        let t = Toy { x, a: attrs(d0, [5; 4], 1, fill32(850)) };
        let alpha = [0u32, 7, HARD - 1, HARD + 3];
        for n in 0..256usize {
            for len in 0..=4usize {
                if n >= 4usize.pow(len as u32) { continue; }
                let mut m = n;
                let p: Vec<u32> = (0..len).map(|_| { let i = alpha[m % 4]; m /= 4; i }).collect();
                // model: stop at the first failing step
                let mut k = Ok(t.clone());
                let mut free = false;
                for i in &p { if let Ok(q) = &k { let q: &Toy = q; free = !private && *i >= HARD && q.a.depth == 255; k = q.step(*i, private); } }
                if k.is_ok() { free = false; }
                let what = format!("toy path {} from {} at depth {}", m32::path_text(&p), x, d0);
                if private {
                    match_tx(toy_prv(&t)?.derive_from_path(&path_of(&p)), k.clone(), &what)?;
                    // the same error whatever the split
                    for cut in 0..=len {
                        let part = toy_prv(&t)?.derive_from_path(&path_of(&p[..cut])).and_then(|k| k.derive_from_path(&path_of(&p[cut..])));
                        match_tx(part, k.clone(), &format!("{} split after {}", what, cut))?;
                    }
                } else {
                    match_tp(toy_pub(&t)?.derive_from_path(&path_of(&p)), k.clone(), free, &what)?;
                    let (a, b) = (toy_pub(&t)?.derive_from_path(&path_of(&p)), { let mut q = toy_pub(&t).need("toy")?; let mut e = None; for i in &p { match q.derive_child(ChildNumber(*i)) { Ok(n) => q = n, Err(x) => { e = Some(x); break; } } } e.map_or(Ok(q), Err) });
                    same!(a.as_ref().err(), b.as_ref().err(), "{}: error of the path and of its steps", what);
                }
                c.fact(match k { Ok(_) => "succeeds", Err(m32::Err::Crypto) => "impossible step", Err(m32::Err::Depth) => "depth", Err(m32::Err::Hardened) => "hardened", Err(_) => "other" });
                c.step();
            }
        }
        c.state(&(x, d0, private));
        Ok(())
    });
    r.section("errors from the seed", "bad seed lengths with every kind of path: the seed's error comes first", |c| {
        let n = *c.of(&[0usize, 15, 17, 31, 33, 63, 65, 127, 129]);
        let p: &[u32] = *c.of(&[&[][..], &[0], &[HARD, 1, 2]]);
        match XPrv::new_from_path(fill(1, n), &path_of(p)) { Err(e) => { same!(e, lib32::Error::SeedLength, "kind of error"); } Ok(_) => return Err(format!("a {}-byte seed was accepted", n)) }
        c.step();
        Ok(())
    });
    r.section("long paths in parts", "a path of 200 mixed steps, split at every point", |c| {
        let seed = fill(61, 32);
        let p: Vec<u32> = (0..200u32).map(|i| if i % 4 == 3 { HARD + i * 1000 } else { i * i * 77777 % HARD }).collect();
        let cut = c.pick(p.len() + 1);
        let want = m32::master(&seed).and_then(|k| k.path(&p));
        let k = XPrv::new_from_path(&seed, &path_of(&p[..cut])).need("first part")?;
        same!(k.attrs().depth as usize, cut, "depth after {} steps", cut);
        c.step();
        match_prv(k.derive_from_path(&path_of(&p[cut..])), want, false, &format!("200 steps split after {}", cut))
    });
}

// ---- C14, C15, C28 -------------------------------------------------------------------------
fn path_text_check(c: &mut Ch, s: &str) -> Res {
    let want = m32::parse_path(s);
    let got = s.parse::<DerivationPath>();
    c.step();
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            let g: Vec<u32> = g.iter().map(|x| x.0).collect();
            same!(g, *w, "path {:?}", clip(s));
            c.fact("accepted");
            let printed = got.as_ref().unwrap().to_string();
            same!(printed, m32::path_text(w), "printed form of path {:?}", clip(s));
            ensure!(printed.parse::<DerivationPath>().as_ref() == Ok(got.as_ref().unwrap()), "path {:?} does not survive printing", clip(s));
        }
        (Err(_), None) => c.fact("refused"),
        (Ok(g), None) => return Err(format!("path {:?} was accepted as {}", clip(s), g)),
        (Err(e), Some(_)) => return Err(format!("path {:?} was refused: {:?}", clip(s), e)),
    }
    Ok(())
}
fn cn_text_check(c: &mut Ch, s: &str) -> Res {
    let want = m32::parse_index(s);
    let got = s.parse::<ChildNumber>();
    c.step();
    match (&got, want) {
        (Ok(g), Some(w)) => { same!(g.0, w, "child number {:?}", clip(s)); same!(g.to_string(), m32::index_text(w), "printed form of {:?}", clip(s)); c.fact("accepted"); }
        (Err(_), None) => c.fact("refused"),
        (Ok(g), None) => return Err(format!("child number {:?} was accepted as {}", clip(s), g)),
        (Err(e), Some(_)) => return Err(format!("child number {:?} was refused: {:?}", clip(s), e)),
    }
    Ok(())
}
pub fn c14(r: &mut Run) {
    crate::near::sections(r, &["path texts"]);
    let alpha = ["m", "/", "'", "0", "1", "9", "2", "+", "-", " ", "é", "M", "h"];
    let n = r.q(6, 7);
    r.section("all short paths", format!("all strings of up to {} symbols over {:?}", n, alpha), |c| {
        let (a, b) = (*c.of(&alpha), *c.of(&alpha));
        let mut stack = vec![(a.to_string(), 1)];
        if a == "m" && b == "m" { path_text_check(c, "")?; }
        stack[0].0.push_str(b); stack[0].1 = 2;
        path_text_check(c, a)?;
        while let Some((s, k)) = stack.pop() {
            path_text_check(c, &s)?;
            if k < n { for x in alpha { stack.push((format!("{}{}", s, x), k + 1)); } }
        }
        Ok(())
    });
    let n2 = r.q(8, 10);
    r.section("paths with a root", format!("\"m/\" followed by all strings of up to {} symbols over {{/, ', 0, 1, 7, +}}", n2), |c| {
        let al = ["/", "'", "0", "1", "7", "+"];
        let (a, b) = (*c.of(&al), *c.of(&al));
        path_text_check(c, "m/")?;
        path_text_check(c, &format!("m/{}", a))?;
        let mut stack = vec![(format!("m/{}{}", a, b), 2)];
        while let Some((s, k)) = stack.pop() {
            path_text_check(c, &s)?;
            if k < n2 { for x in al { stack.push((format!("{}{}", s, x), k + 1)); } }
        }
        Ok(())
    });
    let bases: Vec<Vec<u32>> = {
        let mut v: Vec<Vec<u32>> = vec![vec![], vec![0], vec![HARD], vec![44 | HARD, 60 | HARD, HARD, 0, 0], vec![84 | HARD, HARD, HARD, 1, 2_147_483_647], vec![1, 23, 456, 7], vec![u32::MAX; 6]];
        for n in [7u32, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 128, 255, 256, 257].into_iter().chain(if r.thorough { vec![511, 512, 513, 1024, 4096] } else { vec![] }) { v.push((0..n).map(|i| i * 7 % 50 | if i % 3 == 0 { HARD } else { 0 }).collect()); }
        v
    };
    r.section("paths written otherwise", format!("{} paths of 0 to 257 steps: in other notations as a whole, and with one component, separator or mark, at every place, replaced by one of some 80 others", bases.len()), |c| {
        let b = c.of(&bases).clone();
        let ws: Vec<String> = b.iter().map(|x| m32::index_text(*x)).collect();
        let t = m32::path_text(&b);
        let at = c.pick(ws.len() + 1);
        if at == ws.len() {
            let rel = ws.join("/");
            for (x, y) in [("", ""), ("", "/"), ("", "//"), ("/", ""), ("", "/*"), ("", "/*'"), ("", "/.."), ("", "/."), ("./", ""), ("../", ""), (" ", ""), ("", " "), ("", "\n"), ("", "\r\n"), ("\u{feff}", ""), ("", "\0"), ("\"", "\""), ("'", "'"), ("(", ")"), ("[", "]"), ("<", ">"), ("", ";"), ("", ","), ("", "#8a"), ("", "?a=1"), ("", "'"), ("", "''"), ("", "h"), ("m/", ""), ("m", ""), ("path:", ""), ("bip32:", ""), ("file://", ""), ("", "/m"), ("", " m"), ("", "/<0;1>/*"), ("", "/0-5"), ("", "/{0,1}")] { path_text_check(c, &format!("{}{}{}", x, t, y))?; }
            for root in ["", "/", "M/", "M", "n/", "mm/", "m", "m//", "m /", " m/", "m/ ", "m\\", "m.", "m:", "m|", "m\u{2044}", "m\u{2215}", "\u{ff4d}/", "\u{217f}/", "x/", "xpub/", "xprv/", "master/", "root/", "[d34db33f]/", "d34db33f/", "~/", "$/", "@/", "*/", "0/", "0'/", "-/", "m'/", "mh/", "m/m/", "m/0/../"] { path_text_check(c, &format!("{}{}", root, rel))?; }
            for sep in ["//", "\\", ".", ",", ";", ":", "-", "_", " ", "", "|", "'", "/ ", " /", "/./", "/m/", "\u{2044}", "\u{2215}", "\u{ff0f}", "%2F", "/\0"] { path_text_check(c, &format!("m/{}", ws.join(sep)))?; path_text_check(c, &format!("m{}{}", sep, ws.join(sep)))?; }
            for mark in ["h", "H", "''", "\u{2019}", "\u{2032}", "`", "\"", "!", "^", "~", "+", "-", "p", " '", "' ", "", "'/"] { path_text_check(c, &t.replace('\'', mark))?; }
            path_text_check(c, &t.to_uppercase())?;
            path_text_check(c, &t.chars().rev().collect::<String>())?;
            path_text_check(c, &b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/"))?;
            path_text_check(c, &format!("m/{}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/")))?;
            path_text_check(c, &format!("m/{}", b.iter().map(|x| format!("{:#x}", x)).collect::<Vec<_>>().join("/")))?;
            path_text_check(c, &format!("m/{}", b.iter().map(|x| format!("{:03}{}", x & !HARD, if *x >= HARD { "'" } else { "" })).collect::<Vec<_>>().join("/")))?;
            path_text_check(c, &format!("{:?}", b))?;
            path_text_check(c, &hex(&b.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>()))?;
        } else {
            let w = &ws[at];
            let put = |x: String| -> String { let mut v = ws.clone(); v[at] = x; format!("m/{}", v.join("/")) };
            for x in ["", " ", "*", "*'", "+", "-", "-1", "+1", "'", "''", "h", "H", "m", "M", "m'", ".", "..", "0x1", "0b1", "0o1", "1e3", "1.0", "1,0", "1_000", "1 000", "1'000", "1''", "1'h", "1h", "1H", "1\u{2019}", "1\u{2032}", "'1", "h1", "1-5", "<0;1>", "{0,1}", "[0]", "(0)", "\"0\"", "#0", "$0", "0;", "0,", "0#", "0?", "%30", "\\0", "\0", "0\0", "0\n", "\n0", "0\t", "0\r", "\u{feff}0", "0\u{200b}", "\u{660}", "\u{ff10}", "\u{4e00}", "\u{b2}", "inf", "nan", "null", "i", "0i", "2147483647", "2147483647'", "2147483648", "2147483648'", "4294967295", "4294967295'", "4294967296", "4294967296'", "4294967297", "6442450944", "18446744073709551615", "18446744073709551616", "18446744073709551617'", "340282366920938463463374607431768211456", "00", "01'", "000000000000000000000000000000000000001", "0000000002147483648"] { path_text_check(c, &put(x.to_string()))?; }
            for (x, y) in [("", " "), (" ", ""), ("", "'"), ("", "h"), ("", "/"), ("/", ""), ("0", ""), ("+", ""), ("-", ""), ("", "."), ("", "\u{301}"), ("m", ""), ("m/", ""), ("", "\\"), ("'", ""), ("", "00000000000"), ("00000000000", "")] { path_text_check(c, &put(format!("{}{}{}", x, w, y)))?; }
        }
        c.state(&(b.len(), at));
        Ok(())
    });
    let n3 = r.q(6, 7);
    r.section("all short child numbers", format!("all strings of up to {} symbols over digits, ', +, -, space, h, H, ., _, é, NUL", n3), |c| {
        let al = ["0", "1", "2", "9", "'", "+", "-", " ", "h", "H", ".", "_", "é", "\0", "’", "x"];
        let (a, b) = (*c.of(&al), *c.of(&al));
        cn_text_check(c, "")?;
        cn_text_check(c, a)?;
        let mut stack = vec![(format!("{}{}", a, b), 2)];
        while let Some((s, k)) = stack.pop() {
            cn_text_check(c, &s)?;
            if k < n3 { for x in al { stack.push((format!("{}{}", s, x), k + 1)); } }
        }
        Ok(())
    });
    r.section("number boundaries", "decimal texts around 2^8..2^128 and the wrap-arounds of 2^31, 2^32, 2^64, with leading zeros, hardened or not, alone and as path components", |c| {
        let mut v: Vec<u128> = vec![];
        for k in [8u32, 16, 30, 31, 32, 33, 63, 64, 65, 96, 127] { for d in 0..4u128 { v.push((1u128 << k) + d); v.push((1u128 << k).wrapping_sub(d)); for j in [31u32, 32] { v.push((1u128 << k) + (1 << j) + d); } } }
        for d in 0..3 { v.push(10u128.pow(d * 5)); v.push(2 * (1 << 32) + d as u128); v.push(3 * (1u128 << 31) + d as u128); }
        v.push(44); v.push(999_999_999); v.push(4_294_967_296_000);
        let x = *c.of(&v);
        for z in [0usize, 1, 9, 40, 300] { for h in ["", "'", "''", "h", "H", "\"", "`"] { for (a, b) in [("", ""), ("+", ""), ("-", ""), (" ", ""), ("", " "), ("0x", ""), ("", "u32"), ("", ".0"), ("", "e0"), ("", "\n")] {
            let s = format!("{}{}{}{}{}", a, "0".repeat(z), x, h, b);
            cn_text_check(c, &s)?;
            path_text_check(c, &format!("m/{}", s))?;
            path_text_check(c, &format!("m/0/{}/1'", s))?;
        } } }
        Ok(())
    });
    r.section("digits of other scripts", "every Unicode scalar value as a digit, alone, before, within and after a number, as the mark, as the root, as the separator, and at every place of a short path", |c| {
        let b = c.pick(0x110000 / 2048);
        for x in b * 2048..b * 2048 + 2048 {
            if let Some(ch) = char::from_u32(x as u32) {
                cn_text_check(c, &ch.to_string())?;
                cn_text_check(c, &format!("1{}", ch))?;
                path_text_check(c, &format!("{}/1", ch))?;
                path_text_check(c, &format!("m{}1", ch))?;
                for t in [format!("{}1'", ch), format!("1{}'", ch), format!("1'{}", ch), format!("12{}3", ch)] { cn_text_check(c, &t)?; }
                for t in [format!("{}m/1", ch), format!("m{}/1", ch), format!("m/{}1", ch), format!("m/1{}", ch), format!("m/1'{}", ch), format!("m/1/{}", ch)] { path_text_check(c, &t)?; }
            }
        }
        Ok(())
    });
    let step = r.q(257u64, 1);
    r.section("numbers as text", format!("every {} of all 2^32 child numbers printed and parsed, alone and as a path", if step == 1 { "one".to_string() } else { format!("{}th", step) }), |c| {
        let hi = c.pick(4096) as u64;
        let mut v = (hi << 20).div_ceil(step) * step;
        let mut n = 0;
        let mut buf = String::with_capacity(16);
        while v < (hi + 1) << 20 {
            let x = v as u32;
            buf.clear();
            buf.push_str("m/");
            let mut d = [0u8; 10];
            let (mut k, mut y) = (10, x & (HARD - 1));
            loop { k -= 1; d[k] = b'0' + (y % 10) as u8; y /= 10; if y == 0 { break } }
            for b in &d[k..] { buf.push(*b as char); }
            if x >= HARD { buf.push('\''); }
            let t = &buf[2..];
            let q = t.parse::<ChildNumber>();
            ensure!(q == Ok(ChildNumber(x)), "{:?} is parsed as {:?}", t, q);
            same!(ChildNumber(x).to_string(), t, "printed form of {:#x}", x);
            if v % 16 == 0 { let p = buf.parse::<DerivationPath>().need("path")?; ensure!(p.as_ref() == [ChildNumber(x)], "{:?} is parsed as {:?}", buf, p); same!(p.to_string(), buf, "printed path"); }
            n += 1;
            v += step;
        }
        c.steps(n);
        c.state(&hi);
        Ok(())
    });
    r.section("round trip", "every child number of the boundary alphabet alone, all pairs, and long paths to 400 components, and around 2^10..2^17", |c| {
        let v = cns();
        if c.pick(2) == 0 {
            let a = *c.of(&v);
            for b in &v {
                let p = path_of(&[a, *b]);
                let s = p.to_string();
                same!(s, m32::path_text(&[a, *b]), "printed path");
                same!(s.parse::<DerivationPath>(), Ok(p), "reparsed path {:?}", s);
                let t = ChildNumber(a).to_string();
                same!(t, m32::index_text(a), "printed child number");
                same!(t.parse::<ChildNumber>(), Ok(ChildNumber(a)), "reparsed child number {:?}", t);
                c.steps(2);
            }
        } else {
            let n = c.pick(424);
            let n = if n < 400 { n } else { (1 << (10 + (n - 400) / 3)) + (n - 400) % 3 - 1 };
            let p: Vec<u32> = (0..n).map(|i| v[i % v.len()]).collect();
            let s = path_of(&p).to_string();
            same!(s, m32::path_text(&p), "printed path");
            path_text_check(c, &s)?;
            for bad in ["/", "//", "/ ", "/m", "/'", "/-0", "/+1", "/2147483648", "/2147483648'"] { path_text_check(c, &format!("{}{}", s, bad))?; }
            if n > 0 { path_text_check(c, &s[1..])?; path_text_check(c, &s[2..])?; path_text_check(c, &format!(" {}", s))?; path_text_check(c, &format!("M{}", &s[1..]))?; path_text_check(c, &format!("/{}", s))?; }
        }
        Ok(())
    });
}

pub fn c15(r: &mut Run) {
    // Operations over two paths; the model is a pair of vectors of u32.
    let depth = r.q(6, 7);
    let starts = ["m", "m/0", "m/44'/60'/0'/0/2147483647"];
    r.section("operation sequences", format!("3 starting texts x all sequences of up to {} operations out of 11 (push 4 kinds, extend by 0/3, parent, parent kept aside, clone to and from the second path, swap), both paths compared with plain vectors after every operation", depth), |c| {
        let s = *c.of(&starts);
        let mut lib = [s.parse::<DerivationPath>().need("parse")?, DerivationPath::default()];
        let mut model = [m32::parse_path(s).unwrap(), vec![]];
        let n = c.pick(depth + 1);
        // sequences of exactly n operations; the views are checked after each
        for step in 0..n {
            let op = c.pick(11);
            match op {
                0..=3 => { let v = [0u32, 1, HARD, u32::MAX][op]; lib[0].push(ChildNumber(v)); model[0].push(v); }
                4 => { lib[0].extend(Vec::<ChildNumber>::new()); }
                5 => { let v = [7u32, HARD - 1, HARD + 7]; lib[0].extend(v.iter().map(|x| ChildNumber(*x))); model[0].extend(v); }
                6 => {
                    let p = lib[0].parent();
                    let w = if model[0].is_empty() { None } else { Some(model[0][..model[0].len() - 1].to_vec()) };
                    same!(p.as_ref().map(|p| p.iter().map(|x| x.0).collect::<Vec<_>>()), w, "parent of {}", m32::path_text(&model[0]));
                    if let (Some(p), Some(w)) = (p, w) { lib[0] = p; model[0] = w; }
                }
                7 => { if let Some(p) = lib[0].parent() { lib[1] = p; let k = model[0].len(); model[1] = model[0][..k - 1].to_vec(); } }
                8 => { lib[1] = lib[0].clone(); model[1] = model[0].clone(); }
                9 => { lib[0] = lib[1].clone(); model[0] = model[1].clone(); }
                _ => { lib.swap(0, 1); model.swap(0, 1); }
            }
            c.note(|| format!("op {} -> {} | {}", op, lib[0], lib[1]));
            if step + 1 < n { continue; } // earlier prefixes are checked as shorter sequences
        }
        for k in 0..2 {
            let (l, m) = (&lib[k], &model[k]);
            same!(l.len(), m.len(), "length");
            same!(l.is_empty(), m.is_empty(), "is_empty");
            same!(l.iter().map(|x| x.0).collect::<Vec<_>>(), *m, "iter");
            same!(AsRef::<[ChildNumber]>::as_ref(l).iter().map(|x| x.0).collect::<Vec<_>>(), *m, "slice view");
            same!(l.clone().into_iter().map(|x| x.0).collect::<Vec<_>>(), *m, "into_iter");
            same!(l.clone().into_iter().rev().map(|x| x.0).collect::<Vec<_>>(), m.iter().rev().cloned().collect::<Vec<_>>(), "reverse into_iter");
            same!(l.to_string(), m32::path_text(m), "printed form");
            same!(m32::path_text(m).parse::<DerivationPath>().as_ref(), Ok(l), "equality with the parsed form");
            same!(l.parent().map(|p| p.to_string()), if m.is_empty() { None } else { Some(m32::path_text(&m[..m.len() - 1])) }, "parent");
            c.steps(8);
        }
        same!(lib[0] == lib[1], model[0] == model[1], "equality of the two paths");
        c.state(&model);
        Ok(())
    });
    r.section("very long paths", "lengths around 2^10..2^17, built by one extend, by pushes, by pieces and by parsing: views, printed form, two parents, further pushes", |c| {
        let k = 10 + c.pick(8);
        let n = ((1usize << k) + c.pick(3)) - 1;
        let m: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2_654_435_761)).collect();
        let mut l = DerivationPath::default();
        match c.pick(4) {
            0 => l.extend(m.iter().map(|x| ChildNumber(*x))),
            1 => for x in &m { l.push(ChildNumber(*x)) },
            2 => for x in m.chunks(7) { l.extend(x.iter().map(|x| ChildNumber(*x))) },
            _ => l = m32::path_text(&m).parse().need("parse")?,
        }
        same!(l.len(), n, "length");
        ensure!(l.iter().map(|x| x.0).eq(m.iter().cloned()) && l.as_ref().iter().map(|x| x.0).eq(m.iter().cloned()) && !l.is_empty(), "the numbers of a path of {} steps", n);
        ensure!(l.to_string() == m32::path_text(&m), "printed form of a path of {} steps", n);
        let p = l.parent().ok_or("no parent")?;
        ensure!(p.len() == n - 1 && p.iter().map(|x| x.0).eq(m[..n - 1].iter().cloned()), "parent of a path of {} steps", n);
        same!(p.parent().map(|q| q.len()), Some(n - 2), "grandparent of a path of {} steps", n);
        let mut q = l.clone();
        q.push(ChildNumber(7)); q.extend([ChildNumber(8), ChildNumber(9)]);
        same!(q.len(), n + 3, "length after further steps");
        same!(q.as_ref()[n..].to_vec(), vec![ChildNumber(7), ChildNumber(8), ChildNumber(9)], "further steps");
        same!(l.len(), n, "length of the original");
        ensure!(q.into_iter().map(|x| x.0).take(n).eq(m.iter().cloned()), "the numbers of a path consumed");
        c.steps(9);
        c.state(&n);
        Ok(())
    });
    r.section("long paths", "every length 0..=600, built by one extend, by pushes, by pieces, by mixtures, by parsing: views, parents down to the root, iteration from both ends", |c| {
        let n = c.pick(601);
        let m: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(2_654_435_761)).collect();
        let mut l = DerivationPath::default();
        match c.pick(6) {
            0 => l.extend(m.iter().map(|x| ChildNumber(*x))),
            1 => for x in &m { l.push(ChildNumber(*x)) },
            2 => for x in m.chunks(7) { l.extend(x.iter().map(|x| ChildNumber(*x))) },
            3 => { let k = n / 2; l.extend(m[..k].iter().map(|x| ChildNumber(*x))); for x in &m[k..] { l.push(ChildNumber(*x)) } }
            4 => { let k = n / 2; for x in &m[..k] { l.push(ChildNumber(*x)) } l = l.clone(); l.extend(m[k..].iter().map(|x| ChildNumber(*x))); }
            _ => l = m32::path_text(&m).parse().need("parse")?,
        }
        same!(l.len(), n, "length");
        same!(l.to_string(), m32::path_text(&m), "printed form");
        let mut it = l.clone().into_iter();
        let mut i = 0; let mut j = n;
        while i < j { same!(it.next().map(|x| x.0), Some(m[i]), "front"); i += 1; if i < j { j -= 1; same!(it.next_back().map(|x| x.0), Some(m[j]), "back"); } }
        same!(it.next(), None, "end");
        if n % 50 == 0 {
            let mut k = n;
            let mut p = l.clone();
            while let Some(q) = p.parent() { k -= 1; same!(q.len(), k, "length of parent"); same!(q.iter().map(|x| x.0).collect::<Vec<_>>(), m[..k].to_vec(), "parent"); p = q; }
            same!(k, 0, "parents down to the root");
            same!(l.len(), n, "length after taking parents");
        }
        c.step();
        Ok(())
    });
}

pub fn c28(r: &mut Run) {
    crate::near::sections(r, &["numbers"]);
    r.section("all 2^32 child numbers", "every 32-bit value: value, bytes, index, hardened flag, rebuilt three ways", |c| {
        let hi = c.pick(4096) as u32;
        for lo in 0..(1u32 << 20) {
            let v = std::hint::black_box(hi << 20 | lo);
            let n = ChildNumber::from(v);
            let (i, h) = (v & 0x7fff_ffff, v >> 31 == 1);
            let ok = u32::from(n) == v && n.0 == v && n.to_bytes() == v.to_be_bytes() && ChildNumber::from_bytes(v.to_be_bytes()) == n && n.index() == i && n.is_hardened() == h
                && ChildNumber::new(i, h) == Ok(n) && (v < HARD || (ChildNumber::new(v, false).is_err() && ChildNumber::new(v, true).is_err())) && (v >= HARD || (ChildNumber::new(v, false) == Ok(ChildNumber(v)) && ChildNumber::new(v, true) == Ok(ChildNumber(v | HARD))));
            ensure!(ok, "child number {:#010x}: value {:?}, bytes {:?}, from bytes {:?}, index {}, hardened {}, rebuilt {:?} (an index from 2^31 up must be refused)", v, u32::from(n), n.to_bytes(), ChildNumber::from_bytes(v.to_be_bytes()), n.index(), n.is_hardened(), ChildNumber::new(i, h));
        }
        c.steps(1 << 20);
        c.state(&hi);
        Ok(())
    });
    r.section("order and equality", "all pairs of a boundary alphabet", |c| {
        let v = cns();
        let a = *c.of(&v);
        for b in &v {
            same!(ChildNumber(a) == ChildNumber(*b), a == *b, "{} == {}", a, b);
            same!(ChildNumber(a).cmp(&ChildNumber(*b)), a.cmp(b), "order of {} and {}", a, b);
            same!(ChildNumber(a).partial_cmp(&ChildNumber(*b)), Some(a.cmp(b)), "partial order of {} and {}", a, b);
            same!(ChildNumber(a) < ChildNumber(*b), a < *b, "{} < {}", a, b);
            c.steps(4);
        }
        Ok(())
    });
    r.section("default", "the default child number is 0", |_| { same!(ChildNumber::default().0, 0, "default"); Ok(()) });
}

// ---- C30 -----------------------------------------------------------------------------------
pub fn c30(r: &mut Run) {
    let passes = ["", "TREZOR", "pässwörd", "パスワード", "a b "];
    let paths: Vec<Vec<u32>> = vec![vec![], vec![0], vec![HARD], vec![HARD + 44, HARD + 60, HARD, 0, 0], vec![HARD + 84, HARD, HARD, 1, 7], vec![HARD - 1, u32::MAX, 1, HARD - 2, 2], vec![HARD + 44, HARD + 196, HARD + 300_049, 0]];
    let variants = r.q(16, 120);
    r.section("backup to keys", format!("2 languages x 5 sizes x {} entropies x 8 layouts of the entered phrase x {} passphrases x {} paths: phrase, seed, extended keys under all 8 prefixes", variants, passes.len(), paths.len()), |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let tag = 4 + c.pick(variants);
        let pass = *c.of(&passes);
        let ent = background(tag, n);
        let phrase = m39::encode(l, &ent).unwrap();
        let entered = match c.pick(8) {
            0 => phrase.clone(),
            1 => format!("\u{3000}{}\n", phrase.replace(' ', "  ")),
            2 => phrase.replace(' ', "  "),
            3 => format!(" {}", phrase),
            4 => format!("{} ", phrase),
            5 => format!("{}\r\n", phrase),
            6 => phrase.replace(' ', "\t"),
            _ => phrase.replace(' ', "\u{3000}"),
        };
        let m = Mnemonic::from_phrase(&entered, lang(l)).need("import")?;
        same!(m.phrase(), phrase.as_str(), "phrase imported from {:?}", entered);
        let s = Seed::new(&m, pass);
        let ms = m39::seed(l, &phrase, pass);
        same!(hex(s.as_bytes()), hex(&ms), "seed");
        let root = m32::master(&ms).map_err(|e| format!("{:?}", e)).unwrap();
        for p in &paths {
            let w = root.path(p).unwrap();
            let text = m32::path_text(p);
            let x = XPrv::new_from_path(&s, &text.parse().need("path")?).need("derivation")?;
            same!(as_prv(&x), w, "key at {}", text);
            for pf in LIB_STD {
                let v = pf.version();
                if pf.is_private() { same!(x.to_string(pf).as_str(), w.text(v), "{} text at {}", pf, text); } else { same!(x.public_key().to_string(pf), w.neuter().text(v), "{} text at {}", pf, text); }
            }
            // the same wallet from the exported root
            let again: XPrv = XPrv::new(&s).need("root")?.to_string(Prefix::XPRV).parse().need("reimport")?;
            same!(again.derive_from_path(&path_of(p)).need("derivation")?.to_string(Prefix::XPRV).as_str(), x.to_string(Prefix::XPRV).as_str(), "{} from the exported root", text);
            c.steps(10);
            c.state(&w);
        }
        Ok(())
    });
    r.section_dev("export and import on the way", format!("3 seeds, all paths of up to {} steps over {{0, 2^31-1, 0', 44'}}, at every step one of {{carry on, export and import as text under each private prefix, as an extended-key record}}; at most {} exports on one way; finally the public side likewise", 3, r.q(2, 4)), r.q(2, 4), {
        let d = 3;
        move |c| {
            let (seed, p) = tree(c, d, &[0, HARD - 1, HARD, HARD + 44]);
            let mut x = XPrv::new(&seed).need("root")?;
            let mut w = m32::master(&seed).unwrap();
            let hop = |x: XPrv, k: usize| -> Result<XPrv, String> {
                match k {
                    0 => Ok(x),
                    5 => XPrv::try_from(x.to_extended_key(Prefix::XPRV)).need("record import"),
                    k => { let pf = [Prefix::XPRV, Prefix::TPRV, Prefix::YPRV, Prefix::ZPRV][k - 1]; let t = x.to_string(pf); let y: XPrv = t.parse().need("text import")?; ensure!(y == x, "key differs after export under {}", pf); same!(y.to_string(pf).as_str(), t.as_str(), "text after import"); Ok(y) }
                }
            };
            for i in &p {
                let k = c.dev(6);
                x = hop(x, k)?;
                x = x.derive_child(ChildNumber(*i)).need("step")?;
                w = w.child(*i).unwrap();
                same!(as_prv(&x), w, "key on {}", m32::path_text(&p));
                c.step();
            }
            let k = c.dev(6);
            let x = hop(x, k)?;
            let mut q = x.public_key();
            let mut wq = w.neuter();
            for (j, pf) in [Prefix::XPUB, Prefix::TPUB, Prefix::YPUB, Prefix::ZPUB].into_iter().enumerate() {
                let t = q.to_string(pf);
                same!(t, wq.text(pf.version()), "public text");
                let y: XPub = t.parse().need("public import")?;
                ensure!(y == q, "public key differs after export under {}", pf);
                q = y.derive_child(ChildNumber(j as u32)).need("public step")?;
                wq = wq.child(j as u32).unwrap();
                same!(as_pub(&q), wq, "public key");
                c.step();
            }
            c.state(&w);
            Ok(())
        }
    });
}
