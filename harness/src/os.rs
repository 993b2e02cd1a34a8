//! The operating system's randomness behind a seam: `syscall`, `getrandom`, `open`, `read` are
//! interposed, passed through by default, and answered by a scripted device when one is set (C07).
use crate::common::*;
use std::cell::Cell;
use std::ffi::c_void;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ans { Full, One, AllButOne, Zero, Eintr, Eio, Eagain }
pub const ANSWERS: [Ans; 7] = [Ans::Full, Ans::Eintr, Ans::One, Ans::AllButOne, Ans::Zero, Ans::Eio, Ans::Eagain];
pub struct Device {
    pub script: Vec<Ans>,       // answers to the requests of one generation; Full afterwards
    pub forever: bool,          // the last answer of the script repeats for ever
    pub no_getrandom: i32,      // errno every getrandom call gives, 0: it works
    pub open_errno: i32,        // errno opening the random device gives
    pub call: usize,
    pub stream: u64,
    pub blot: Option<(usize, usize)>, // bytes from..to of the delivered stream that are disturbed
    pub flip: Option<usize>,    // bit of the delivered stream that is inverted
    pub set: Option<(usize, u8)>, // byte of the delivered stream that is replaced
    pub pos: usize,
    pub fatal: usize,
    pub soft: usize,
    pub buf: Vec<u8>,
}
impl Device {
    pub fn new(stream: u64) -> Device { Device { script: vec![], forever: false, no_getrandom: 0, open_errno: 0, call: 0, stream, blot: None, flip: None, set: None, pos: 0, fatal: 0, soft: 0, buf: vec![] } }
    fn restart(&mut self, stream: u64) { self.stream = stream; self.call = 0; self.pos = 0; self.fatal = 0; self.soft = 0; self.buf.clear(); }
    fn byte(&mut self) -> u8 {
        let p = self.pos;
        if self.buf.len() <= p { self.buf = match self.stream { 0 => vec![0; p + 1024], 1 => vec![0xff; p + 1024], s => fill(0x05_0000_0000 + s, p + 1024) }; }
        let mut b = self.buf[p];
        if let Some((i, v)) = self.set { if i == p { b = v } }
        if let Some((lo, hi)) = self.blot { if lo <= p && p < hi { b ^= 0x5b } }
        if let Some(i) = self.flip { if i / 8 == p { b ^= 1 << (i % 8) } }
        self.pos += 1;
        b
    }
    /// Answer one request for n bytes at p: the count or a negative errno.
    fn answer(&mut self, p: *mut u8, n: usize) -> isize {
        if n == 0 { return 0; }
        let k = self.call;
        self.call += 1;
        let a = if k < self.script.len() { self.script[k] } else if self.forever { *self.script.last().unwrap() } else { Ans::Full };
        let m = match a {
            Ans::Full => n,
            Ans::One => 1,
            Ans::AllButOne => if n > 1 { n - 1 } else { 1 },
            Ans::Zero => 0,
            Ans::Eintr => { self.soft += 1; return -(libc::EINTR as isize) }
            Ans::Eio => { self.fatal += 1; return -(libc::EIO as isize) }
            Ans::Eagain => { self.fatal += 1; return -(libc::EAGAIN as isize) }
        };
        if m < n { self.soft += 1; }
        for i in 0..m { let b = self.byte(); unsafe { *p.add(i) = b; } }
        m as isize
    }
}
thread_local! {
    static DEV: Cell<*mut Device> = const { Cell::new(std::ptr::null_mut()) };
    static RNDFD: Cell<i32> = const { Cell::new(-1) };
}
fn dev() -> Option<&'static mut Device> { let p = DEV.try_with(|d| d.get()).unwrap_or(std::ptr::null_mut()); if p.is_null() { None } else { Some(unsafe { &mut *p }) } }
pub fn with_device<R>(d: &mut Device, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { DEV.with(|x| x.set(std::ptr::null_mut())); } }
    DEV.with(|x| x.set(d));
    let _off = Off;
    f()
}
#[cfg(target_arch = "x86_64")]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize { if r < 0 && r > -4096 { *libc::__errno_location() = -r as i32; -1 } else { r } }
unsafe fn random(p: usize, n: usize, flags: usize) -> isize {
    ret(match dev() {
        Some(d) => if d.no_getrandom != 0 { -(d.no_getrandom as isize) } else { d.answer(p as *mut u8, n) },
        None => raw(libc::SYS_getrandom as usize, p, n, flags, 0, 0, 0),
    })
}
#[no_mangle]
unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_getrandom as usize { return random(a, b, c); }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, flags: u32) -> isize { random(p as usize, n, flags as usize) }
#[no_mangle]
unsafe extern "C" fn getentropy(p: *mut c_void, n: usize) -> i32 { let r = random(p as usize, n, 0); if r == n as isize { 0 } else { if r >= 0 { *libc::__errno_location() = libc::EIO; } -1 } }
unsafe fn open_at(path: *const libc::c_char, flags: usize, mode: usize) -> i32 {
    let rnd = { let s = std::ffi::CStr::from_ptr(path).to_bytes(); s == b"/dev/urandom" || s == b"/dev/random" };
    if rnd { if let Some(d) = dev() { if d.open_errno != 0 { d.fatal += 1; return ret(-(d.open_errno as isize)) as i32; } } }
    let fd = ret(raw(libc::SYS_openat as usize, libc::AT_FDCWD as usize, path as usize, flags, mode, 0, 0)) as i32;
    if rnd && dev().is_some() { RNDFD.with(|f| f.set(fd)); }
    fd
}
#[no_mangle]
unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 { open_at(path, flags as usize, mode as usize) }
#[no_mangle]
unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 { open_at(path, flags as usize, mode as usize) }
#[no_mangle]
unsafe extern "C" fn read(fd: i32, p: *mut c_void, n: usize) -> isize {
    if let Some(d) = dev() { if fd >= 0 && RNDFD.with(|f| f.get()) == fd { return ret(d.answer(p as *mut u8, n)); } }
    ret(raw(libc::SYS_read as usize, fd as usize, p as usize, n, 0, 0, 0))
}

/// Run f in a forked child and return the bytes it produced; None when the child died.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut p = [0i32; 2];
        assert!(libc::pipe(p.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let (code, v) = match r { Ok(v) => (0, v), Err(_) => (3, last_panic().into_bytes()) };
            let mut o = 0;
            while o < v.len() { let k = libc::write(p[1], v.as_ptr().add(o) as *const c_void, v.len() - o); if k <= 0 { break; } o += k as usize; }
            libc::_exit(code);
        }
        libc::close(p[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let k = raw(libc::SYS_read as usize, p[0] as usize, b.as_mut_ptr() as usize, b.len(), 0, 0, 0);
            if k == -(libc::EINTR as isize) { continue; }
            if k <= 0 { break; }
            v.extend_from_slice(&b[..k as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { return Ok(v); }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 { return Err(format!("panicked: {}", String::from_utf8_lossy(&v))); }
        Err(format!("the process died: status {:#x}", st))
    }
}
fn bits_of(m: MnemonicType) -> usize { m.entropy_bits() }
fn valid(m: &Mnemonic, words: usize, l: Lang) -> Res {
    same!(m.entropy().len(), words * 4 / 3, "bytes of entropy for {} words", words);
    let p = m39::encode(l, m.entropy()).ok_or("entropy of no valid size")?;
    same!(m.phrase(), p, "phrase of the generated entropy");
    same!(m.phrase().split(' ').count(), words, "word count");
    same!(m.language(), lang(l), "language");
    same!(m39::import(l, m.phrase()).map(|x| x.1).ok(), Some(m.entropy().to_vec()), "phrase read back");
    same!(bits_of(mtype(words)), m.entropy().len() * 8, "entropy bits");
    Ok(())
}
/// One generation with the device: Ok(Some(entropy)), Ok(None) when the call panicked.
fn gen(d: &mut Device, words: usize, l: Lang) -> Result<Option<Vec<u8>>, String> {
    match with_device(d, || guard(|| Mnemonic::new(mtype(words), lang(l)))) {
        Ok(m) => { valid(&m, words, l)?; Ok(Some(m.entropy().to_vec())) }
        Err(_) => Ok(None),
    }
}
/// Everything the child found wrong, as text ("" = nothing), then the entropies.
fn pack(r: Result<Vec<Vec<u8>>, String>) -> Vec<u8> {
    let mut o = vec![];
    match r {
        Err(e) => { o.push(1); o.extend_from_slice(e.as_bytes()); }
        Ok(v) => { o.push(0); for e in v { o.push(e.len() as u8); o.extend_from_slice(&e); } }
    }
    o
}
fn unpack(b: Result<Vec<u8>, String>) -> Result<Vec<Vec<u8>>, String> {
    let b = b?;
    if b.is_empty() { return Err("the process ended early".into()); }
    if b[0] == 1 { return Err(String::from_utf8_lossy(&b[1..]).into_owned()); }
    let (mut i, mut v) = (1, vec![]);
    while i < b.len() { let n = b[i] as usize; v.push(b[i + 1..i + 1 + n].to_vec()); i += 1 + n; }
    Ok(v)
}
/// Rank over GF(2) of the differences to the first row.
fn rank(rows: &[Vec<u8>]) -> usize {
    let mut basis: Vec<Vec<u8>> = vec![];
    let lead = |v: &Vec<u8>| v.iter().position(|b| *b != 0).map(|i| i * 8 + v[i].leading_zeros() as usize);
    for r in &rows[1..] {
        let mut v: Vec<u8> = r.iter().zip(&rows[0]).map(|(a, b)| a ^ b).collect();
        for b in &basis { let l = lead(b).unwrap(); if v[l / 8] >> (7 - l % 8) & 1 == 1 { for (x, y) in v.iter_mut().zip(b) { *x ^= y; } } }
        if lead(&v).is_some() { basis.push(v); }
    }
    basis.len()
}
fn distinct(v: &[Vec<u8>], what: &str) -> Res {
    let mut seen = std::collections::HashMap::new();
    for (i, e) in v.iter().enumerate() {
        for (o, w) in e.windows(8).enumerate() {
            if let Some((j, p)) = seen.insert(w.to_vec(), (i, o)) { if j != i { return Err(format!("{}: mnemonics {} and {} share entropy bytes {} (offsets {} and {})", what, j, i, hex(w), p, o)); } }
        }
    }
    Ok(())
}
const WORDS: [usize; 5] = [12, 15, 18, 21, 24];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Gen(usize), Thread, Fork, Fail, Other }
/// Run the operations; entropies made here and in all descendants.
fn history(ops: &[Op]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Gen(w) => { let m = Mnemonic::new(mtype(*w), Language::English); valid(&m, *w, Lang::En)?; out.push(m.entropy().to_vec()); }
            Op::Thread => {
                let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(|| (0..2).map(|_| Mnemonic::new(MnemonicType::Words12, Language::ChineseSimplified)).collect::<Vec<_>>())).collect();
                for h in hs { for m in h.join().map_err(|_| "a generating thread panicked".to_string())? { valid(&m, 12, Lang::Zh)?; out.push(m.entropy().to_vec()); } }
            }
            Op::Fork => {
                let rest = ops[i + 1..].to_vec();
                let child = unpack(in_child(move || pack(history(&rest))))?;
                out.extend(child);
            }
            Op::Fail => {
                let mut d = Device::new(3);
                d.script = vec![Ans::Eio];
                d.forever = true;
                ensure!(gen(&mut d, 12, Lang::En)?.is_none() || d.fatal == 0, "a mnemonic was made while the OS source fails");
            }
            Op::Other => {
                let m = Mnemonic::from_phrase("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", Language::English).need("import")?;
                let _ = XPrv::new(&Seed::new(&m, "")).need("root")?;
                let _ = Mnemonic::from_entropy(&[7; 24], Language::ChineseSimplified).need("from_entropy")?;
            }
        }
    }
    Ok(out)
}

pub fn c07(r: &mut Run) {
    // word tables only: the randomness source is first touched inside the children
    for l in LANGS { let _ = Mnemonic::from_entropy(&[0; 16], lang(l)); let _ = lang(l).wordmap(); }
    let len = r.q(4, 5);
    let budget = r.q(2, 3);
    r.section_dev("OS answers", format!("2 languages x 5 sizes x {{getrandom, ENOSYS or EPERM and the device file}} x every script of {} answers out of full, interrupted, short (1, n-1 or 0 bytes) and failing (EIO, EAGAIN) with at most {} not full; 40 OS streams each, in a fresh process", len, budget), budget, |c| {
        let l = *c.of(&LANGS);
        let words = *c.of(&WORDS);
        let (errno, open_errno) = *c.of(&[(0, 0), (libc::ENOSYS, 0), (libc::EPERM, 0), (libc::ENOSYS, libc::ENOENT)]);
        let mut script = vec![];
        let forever = if open_errno == 0 {
            for _ in 0..len { script.push(*c.dev_of(&ANSWERS)); }
            while script.last() == Some(&Ans::Full) { script.pop(); }
            let hard = |a: &Ans| matches!(a, Ans::Eio | Ans::Eagain);
            script.last().map_or(false, hard) && c.flag()
        } else { false };
        c.note(|| format!("{} words {:?} getrandom errno {} script {:?} forever {}", words, l, errno, script, forever));
        let got = unpack(in_child(|| pack((|| {
            let mut d = Device::new(0);
            d.script = script.clone(); d.forever = forever; d.no_getrandom = errno; d.open_errno = open_errno;
            let mut out = vec![];
            for s in 2..42u64 {
                d.restart(s);
                let m = gen(&mut d, words, l)?;
                match m {
                    Some(e) => {
                        // a later retry after a failed answer is fine as long as the OS delivered everything
                        ensure!(!(d.fatal > 0 && (forever || d.open_errno != 0)), "a mnemonic was made although the OS source failed");
                        out.push(e);
                    }
                    None => { ensure!(d.fatal > 0, "no mnemonic although the OS source answered (interrupted or short answers only)"); out.push(vec![]); }
                }
            }
            Ok(out)
        })())));
        let got = got?;
        c.steps(40);
        let made: Vec<&Vec<u8>> = got.iter().filter(|e| !e.is_empty()).collect();
        c.facts("generated", made.len() as u64);
        c.facts("refused because the OS failed", (got.len() - made.len()) as u64);
        for e in &made { c.state(*e); }
        if made.is_empty() { return Ok(()); }
        same!(made.len(), 40, "calls that succeed under the same answers");
        for b in 0..words * 4 / 3 * 8 {
            let ones = made.iter().filter(|e| e[b / 8] >> (7 - b % 8) & 1 == 1).count();
            ensure!(ones > 0 && ones < 40, "entropy bit {} is {} whatever the OS answers", b, if ones > 0 { 1 } else { 0 });
        }
        let v: Vec<Vec<u8>> = made.iter().map(|e| e.to_vec()).collect();
        distinct(&v, "different OS streams")?;
        Ok(())
    });
    r.section("every OS bit", "5 sizes x {getrandom, device file} x {first call, second call, call in a forked child after an earlier one}: every single delivered OS bit inverted in a fresh process; and each delivered byte through all 256 values", |c| {
        let words = *c.of(&WORDS);
        let bits = words * 32 / 3;
        let errno = *c.of(&[0, libc::ENOSYS]);
        let warm = c.pick(3);
        // one generation in a fresh process under the given disturbance; also how many bytes it took
        let one = |flip: Option<usize>, blot: Option<(usize, usize)>| -> Result<(Vec<u8>, usize), String> {
            let v = unpack(in_child(|| pack((|| {
                let mut d = Device::new(2);
                d.no_getrandom = errno;
                if warm == 1 { gen(&mut d, 24, Lang::Zh)?; }
                if warm == 2 { gen(&mut d, 12, Lang::En)?; }
                d.restart(9);
                d.flip = flip; d.blot = blot;
                let mut run = || -> Result<Vec<Vec<u8>>, String> { let e = gen(&mut d, words, Lang::En)?.ok_or("no mnemonic although the OS source answers")?; Ok(vec![e, (d.pos as u32).to_be_bytes().to_vec()]) };
                if warm == 2 { unpack(in_child(|| pack(run()))) } else { run() }
            })())))?;
            Ok((v[0].clone(), u32::from_be_bytes([v[1][0], v[1][1], v[1][2], v[1][3]]) as usize))
        };
        let (base, took) = one(None, None)?;
        let (again, _) = one(None, None)?;
        same!(hex(&again), hex(&base), "entropy for the same OS answers (something other than OS randomness enters)");
        if warm != 1 { ensure!(took * 8 >= bits, "only {} OS bits were drawn for {} bits of entropy", took * 8, bits); }
        if warm == 1 && took * 8 < bits { c.fact("drawn ahead"); return Ok(()); }
        let mut influence = 0;
        let mut hit = vec![0u8; base.len()];
        // a source that draws far ahead: find the bytes that matter by halving, then go bit by bit
        let mut matter: Vec<usize> = vec![];
        let mut todo = vec![(0, took)];
        while let Some((lo, hi)) = todo.pop() {
            if hi - lo <= if took <= 256 { 256 } else { 1 } { matter.extend(lo..hi); continue; }
            let m = (lo + hi) / 2;
            for h in [(lo, m), (m, hi)] { if one(None, Some(h))?.0 != base { todo.push(h); } }
        }
        for i in matter.iter().flat_map(|b| b * 8..b * 8 + 8) {
            let (e, _) = one(Some(i), None)?;
            if e != base { influence += 1; }
            for (h, (a, b)) in hit.iter_mut().zip(e.iter().zip(&base)) { *h |= a ^ b; }
            c.step();
        }
        ensure!(influence >= bits, "only {} OS bits have an influence on {} bits of entropy", influence, bits);
        if let Some(p) = hit.iter().position(|h| *h != 0xff) { return Err(format!("entropy byte {}: bits {:#04x} depend on no OS bit", p, !hit[p])); }
        c.state(&(words, errno, warm));
        c.state(&base);
        if warm == 0 {
            // all values of every byte, in one process
            for (p, r) in (0..took.min(64)).map(|p| (p, unpack(in_child(|| pack((|| {
                let mut out = vec![];
                let mut d = Device::new(2);
                d.no_getrandom = errno;
                for v in 0..=255u8 { d.restart(9); d.set = Some((p, v)); out.push(gen(&mut d, words, Lang::En)?.ok_or("no mnemonic")?); }
                Ok(out)
            })()))))) {
                let r = r?;
                let n = r.iter().collect::<std::collections::HashSet<_>>().len();
                // bytes with a partial influence are fine as long as enough bits have one
                if took * 8 < bits + 8 { ensure!(n == 256, "256 values of OS byte {} give only {} different entropies", p, n); }
                for e in &r { c.state(e); }
                c.steps(256);
            }
        }
        Ok(())
    });
    let streams = r.q(4000, 16000);
    r.section("no structure", format!("5 sizes x 2 languages: the entropies of {} OS streams satisfy no linear relation, alone and over three consecutive calls, take every value of every byte, and never share 8 bytes", streams), |c| {
        let words = *c.of(&WORDS);
        let l = *c.of(&LANGS);
        let n = words * 4 / 3;
        // in a process of its own: a pool shared by threads would mix the OS answers of different executions
        let all = unpack(in_child(|| pack((|| {
            let mut out: Vec<Vec<u8>> = vec![];
            let mut d = Device::new(0);
            for s in 0..streams as u64 {
                d.restart(10 + s);
                let mut row = vec![];
                for _ in 0..3 { let e = gen(&mut d, words, l)?.ok_or("no mnemonic although the OS source answers")?; row.extend(e); }
                out.push(row);
            }
            Ok(out)
        })())))?;
        c.steps(3 * streams as u64);
        same!(rank(&all[..3 * n * 8 + 400]), 3 * n * 8, "independent bits in three consecutive entropies");
        for p in 0..3 * n {
            let mut h = [0u32; 256];
            for r in &all { h[r[p] as usize] += 1; }
            let mean = (streams / 256) as u32;
            for (v, k) in h.iter().enumerate() { ensure!(*k > 0 && *k < 6 * mean, "byte {} of the entropy is {:#04x} {} times in {}", p, v, k, streams); }
        }
        let flat: Vec<Vec<u8>> = all.iter().flat_map(|r| r.chunks(n).map(|x| x.to_vec()).collect::<Vec<_>>()).collect();
        for e in &flat { c.state(e); }
        distinct(&flat, "different OS answers")
    });
    let depth = r.q(4, 5);
    let alphabet = [Op::Gen(12), Op::Gen(24), Op::Fork, Op::Thread, Op::Fail, Op::Other];
    r.section("calls, threads and forks", format!("every history of up to {} of {{generate 12 or 24 words, generate in 2 new threads, fork (both sides carry on), generate with a failing OS source, other library calls}} followed by one more generation, on the real OS source: no two mnemonics share 8 bytes", depth), |c| {
        let k = c.pick(depth + 1);
        let mut ops: Vec<Op> = (0..k).map(|_| *c.of(&alphabet)).collect();
        if ops.iter().filter(|o| **o == Op::Fork).count() > 3 { return Ok(()); }
        ops.push(Op::Gen(12));
        c.note(|| format!("{:?}", ops));
        let v = unpack(in_child(|| pack(history(&ops))))?;
        c.steps(v.len() as u64);
        for e in &v { c.state(e); }
        distinct(&v, &format!("{:?}", ops))
    });
    let per = r.q(6000, 60_000);
    r.section("valid from every size", format!("2 languages x 5 sizes x {} generations on the real OS source", per), |c| {
        let words = *c.of(&WORDS);
        let l = *c.of(&LANGS);
        let mut seen = vec![];
        for _ in 0..per { let m = Mnemonic::new(mtype(words), lang(l)); valid(&m, words, l)?; seen.push(m.entropy().to_vec()); c.step(); }
        for e in &seen { c.state(e); }
        distinct(&seen, "consecutive calls")
    });
    let per = r.q(40_000, 250_000);
    let pool = std::sync::Mutex::new(std::collections::HashSet::new());
    r.section("no small seed", format!("8 x {} mnemonics from the real OS source on several threads: all differ, in the first and in the last 8 bytes (a seed of 32 bits or less would repeat)", per), |c| {
        let _ = c.pick(8);
        let mut v = Vec::with_capacity(per);
        for _ in 0..per { let m = Mnemonic::new(MnemonicType::Words12, Language::English); v.push((u64::from_be_bytes(m.entropy()[..8].try_into().map_err(|_| "short entropy")?), u64::from_be_bytes(m.entropy()[m.entropy().len() - 8..].try_into().map_err(|_| "short entropy")?))); }
        c.steps(per as u64);
        let mut g = pool.lock().unwrap_or_else(|e| e.into_inner());
        for (a, b) in v { c.state(&a); ensure!(g.insert(a) && g.insert(b), "two mnemonics of one run begin or end with the same 8 bytes {:016x} / {:016x}", a, b); }
        Ok(())
    });
}
