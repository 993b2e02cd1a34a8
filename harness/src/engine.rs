//! Stateless exhaustive explorer.
//!
//! A driver is a function of a [`Ch`]; every nondeterministic choice (operation, argument,
//! environment answer) is asked of it.  The explorer executes the driver once for every complete
//! choice sequence: it runs a prefix, takes choice 0 at every later point, and queues every
//! untaken alternative it passed.  `dev` choices other than 0 cost one deviation, bounded per section.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

struct Pt { choice: u32, n: u32 }

#[derive(Default)]
struct Stats {
    runs: u64,
    steps: u64,
    states: HashSet<u64>,
    facts: BTreeMap<&'static str, u64>,
}

pub struct Ch<'a> {
    prefix: &'a [u32],
    trail: Vec<Pt>,
    budget: u32,
    used: u32,
    pub tracing: bool,
    pub trace: Vec<String>,
    st: &'a mut Stats,
}

/// FxHash-like deterministic hasher.
#[derive(Default)]
struct H64(u64);
impl Hasher for H64 {
    fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^ (x >> 32) }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); }
    }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = H64::default(); t.hash(&mut h); h.finish() }

impl<'a> Ch<'a> {
    fn next(&mut self, n: u32) -> u32 {
        let i = self.trail.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            if c >= n { panic!("ENGINE: replay diverged: choice {} of {} at point {}", c, n, i); }
            c
        } else { 0 };
        self.trail.push(Pt { choice: c, n });
        c
    }
    /// Free choice among n alternatives: all are explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 { 0 } else { self.next(n as u32) as usize }
    }
    /// Choice whose alternatives 1.. each cost one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 || self.used >= self.budget { return 0; }
        let c = self.next(n as u32);
        if c != 0 { self.used += 1; }
        c as usize
    }
    pub fn of<'b, T>(&mut self, xs: &'b [T]) -> &'b T { let i = self.pick(xs.len()); &xs[i] }
    pub fn dev_of<'b, T>(&mut self, xs: &'b [T]) -> &'b T { let i = self.dev(xs.len()); &xs[i] }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
    /// A model state was reached.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.st.states.len() < 4_000_000 { self.st.states.insert(hash64(t)); }
    }
    /// A real operation was executed and its result compared with the model's.
    pub fn step(&mut self) { self.st.steps += 1; }
    pub fn steps(&mut self, n: u64) { self.st.steps += n; }
    /// Count an outcome class.
    pub fn fact(&mut self, f: &'static str) { *self.st.facts.entry(f).or_insert(0) += 1; }
    pub fn facts(&mut self, f: &'static str, n: u64) { *self.st.facts.entry(f).or_insert(0) += n; }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.tracing { let s = f(); self.trace.push(clip(&s)); } }
    /// the forced choices not yet used up
    pub fn rest(&self) -> &'a [u32] { &self.prefix[self.trail.len().min(self.prefix.len())..] }
    fn choices(&self) -> Vec<u32> { self.trail.iter().map(|p| p.choice).collect() }
}
pub fn clip(s: &str) -> String {
    if s.chars().count() > 600 { format!("{}… ({} bytes)", s.chars().take(600).collect::<String>(), s.len()) } else { s.to_string() }
}

// ---- panic capture -------------------------------------------------------------------------
thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some((msg, loc)));
    }));
}
/// Panics raised by harness or model code are engine errors, all others belong to the library.
fn ours(loc: &str) -> bool {
    !loc.starts_with("/repo/") && (loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("refmodel/src") || loc.contains("harness/src"))
}
pub fn last_panic() -> String { LAST_PANIC.with(|l| l.borrow_mut().take()).map(|(m, l)| format!("{} ({})", m, l)).unwrap_or_default() }
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let (msg, loc) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if ours(&loc) { LAST_PANIC.with(|l| *l.borrow_mut() = Some((msg.clone(), loc.clone()))); std::panic::resume_unwind(e); }
            Err(format!("panicked: {} ({})", clip(&msg), loc))
        }
    }
}

// ---- supervision across processes ----------------------------------------------------------
const SLOTS: usize = 16;
const TRAIL_MAX: usize = 4096;
#[repr(C)]
struct Slot { seq: AtomicU64, start_ms: AtomicU64, section: AtomicU64, len: AtomicU64, trail: [u32; TRAIL_MAX] }
#[repr(C)]
struct Shared { slots: [Slot; SLOTS] }
static SHARED: AtomicUsize = AtomicUsize::new(0);
fn shared() -> Option<&'static Shared> { let p = SHARED.load(Relaxed); if p == 0 { None } else { Some(unsafe { &*(p as *const Shared) }) } }
pub fn now_ms() -> u64 { let mut t: libc::timespec = unsafe { std::mem::zeroed() }; unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) }; t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 }
fn slot_begin(w: usize, section: usize, trail: &[u32]) {
    if let Some(s) = shared() {
        let s = &s.slots[w];
        let n = trail.len().min(TRAIL_MAX);
        unsafe { std::ptr::copy_nonoverlapping(trail.as_ptr(), s.trail.as_ptr() as *mut u32, n); }
        s.len.store(n as u64, Relaxed);
        s.section.store(section as u64, Relaxed);
        s.start_ms.store(now_ms(), Relaxed);
        s.seq.fetch_add(1, Release);
    }
}
fn slot_end(w: usize) { if let Some(s) = shared() { s.slots[w].start_ms.store(0, Release); } }

// ---- run -----------------------------------------------------------------------------------
pub struct Violation { pub section: String, pub trail: Vec<u32>, pub msg: String, pub trace: Vec<String> }
pub struct SectionReport {
    pub name: String, pub bound: String, pub deviations: Option<u32>, pub executions: u64, pub transitions: u64, pub states: u64,
    pub outcomes: BTreeMap<&'static str, u64>, pub complete: bool, pub samples: Vec<Vec<String>>, pub wall: f64,
}
pub struct Run {
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Instant,
    pub replay: Option<(String, Vec<u32>)>,
    pub single: bool, // replay of one trail on behalf of the supervisor
    pub only: Option<String>,
    pub reports: Vec<SectionReport>,
    pub violations: Vec<Violation>,
    pub known: Vec<(String, String)>,
    pub engine_error: Option<String>,
    index: usize,
    pub names: Vec<String>,
}
impl Run {
    pub fn new(thorough: bool, secs: u64) -> Run {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS);
        Run { thorough, threads, deadline: Instant::now() + Duration::from_secs(secs), replay: None, single: false, only: None, reports: vec![], violations: vec![], known: vec![], engine_error: None, index: 0, names: vec![] }
    }
    /// only the section names are being collected
    pub fn dry(&self) -> bool { self.only.as_deref() == Some("\u{0}none") }
    /// would a section of this name be explored now?
    pub fn wants(&self, name: &str) -> bool { self.only.as_deref().map_or(true, |o| o == name) && self.replay.as_ref().map_or(true, |r| r.0 == name) }
    /// quick or thorough bound
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }

    pub fn section(&mut self, name: &str, bound: impl Into<String>, f: impl Fn(&mut Ch) -> Res + Sync) { self.explore(name, bound.into(), None, &f) }
    pub fn section_dev(&mut self, name: &str, bound: impl Into<String>, dev: u32, f: impl Fn(&mut Ch) -> Res + Sync) { self.explore(name, bound.into(), Some(dev), &f) }

    fn explore(&mut self, name: &str, bound: String, dev: Option<u32>, f: &(dyn Fn(&mut Ch) -> Res + Sync)) {
        let idx = self.index; self.index += 1;
        self.names.push(name.to_string());
        if self.engine_error.is_some() { return; }
        if let Some(o) = &self.only { if o != name { return; } }
        let budget = dev.unwrap_or(u32::MAX);
        if let Some((sec, trail)) = &self.replay {
            if sec != name { return; }
            let mut st = Stats::default();
            let trail = trail.clone();
            slot_begin(0, idx, &trail);
            let (r, ch) = exec(f, &trail, budget, true, &mut st);
            slot_end(0);
            for l in &ch.1 { println!("  | {}", l); }
            match r {
                Ok(()) => println!("REPLAY: section {} holds on this execution", name),
                Err(Fault::Fail(m)) => { println!("REPLAY: section {}: {}", name, m); self.violations.push(Violation { section: name.into(), trail, msg: m, trace: ch.1 }); }
                Err(Fault::Engine(m)) => self.engine_error = Some(m),
            }
            return;
        }
        let t0 = Instant::now();
        let global: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
        let hungry = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let engine: Mutex<Option<String>> = Mutex::new(None);
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let samples: Mutex<Vec<Vec<String>>> = Mutex::new(vec![]);
        let threads = if std::env::var_os("MCK_SERIAL").is_some() { 1 } else { self.threads };
        let deadline = self.deadline;
        std::thread::scope(|s| {
            for w in 0..threads {
                let (f, global, hungry, stop, capped, found, engine, total, samples) = (f, &global, &hungry, &stop, &capped, &found, &engine, &total, &samples);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut n = 0u64;
                    'outer: loop {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                hungry.fetch_add(1, SeqCst);
                                loop {
                                    if stop.load(Relaxed) { break 'outer; }
                                    if let Some(p) = { let mut g = global.lock().unwrap(); let p = g.pop(); if p.is_some() { hungry.fetch_sub(1, SeqCst); } p } { break p; }
                                    if hungry.load(SeqCst) == threads && global.lock().unwrap().is_empty() { break 'outer; }
                                    std::thread::sleep(Duration::from_micros(50));
                                }
                            }
                        };
                        if stop.load(Relaxed) { break; }
                        if n % 64 == 0 && Instant::now() > deadline { capped.store(true, Relaxed); stop.store(true, Relaxed); break; }
                        n += 1;
                        // keep a few executions as written-out samples
                        let tracing = w == 0 && (n == 1 || n == 50 || n == 1000);
                        slot_begin(w, idx, &prefix);
                        let (r, (pts, trace)) = exec(f, &prefix, budget, tracing, &mut st);
                        slot_end(w);
                        if tracing && !trace.is_empty() { samples.lock().unwrap().push(trace.clone()); }
                        match r {
                            Err(Fault::Engine(m)) => { *engine.lock().unwrap() = Some(m); stop.store(true, Relaxed); break; }
                            Err(Fault::Fail(m)) => {
                                let trail: Vec<u32> = pts.iter().map(|p| p.choice).collect();
                                let mut g = found.lock().unwrap();
                                g.push(Violation { section: String::new(), trail, msg: m, trace });
                                if g.len() >= 40 { stop.store(true, Relaxed); }
                            }
                            Ok(()) => {}
                        }
                        for i in (prefix.len()..pts.len()).rev() {
                            for alt in (pts[i].choice + 1)..pts[i].n {
                                let mut p: Vec<u32> = pts[..i].iter().map(|p| p.choice).collect();
                                p.push(alt);
                                local.push(p);
                            }
                        }
                        if hungry.load(Relaxed) > 0 && local.len() > 1 {
                            let k = local.len() / 2;
                            let give: Vec<Vec<u32>> = local.drain(..k.max(1)).collect();
                            global.lock().unwrap().extend(give);
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.runs += st.runs; t.steps += st.steps;
                    for (k, v) in st.facts { *t.facts.entry(k).or_insert(0) += v; }
                    if t.states.is_empty() { t.states = st.states } else { t.states.extend(st.states) }
                }).unwrap();
            }
        });
        let st = total.into_inner().unwrap();
        self.reports.push(SectionReport {
            name: name.into(), bound, deviations: dev, executions: st.runs, transitions: st.steps, states: st.states.len() as u64,
            outcomes: st.facts, complete: !capped.load(Relaxed) && !stop.load(Relaxed), samples: samples.into_inner().unwrap(), wall: t0.elapsed().as_secs_f64(),
        });
        if let Some(m) = engine.into_inner().unwrap() { self.engine_error = Some(m); return; }
        let mut v = found.into_inner().unwrap();
        // simplest first: shortest, then smallest choices
        v.sort_by(|a, b| (a.trail.iter().filter(|c| **c != 0).count(), a.trail.len(), &a.trail).cmp(&(b.trail.iter().filter(|c| **c != 0).count(), b.trail.len(), &b.trail)));
        v.truncate(3);
        for mut x in v {
            // re-execute with tracing for the report
            let mut st = Stats::default();
            let (r, ch) = exec(f, &x.trail, budget, true, &mut st);
            match r {
                Err(Fault::Fail(m)) if m == x.msg => x.trace = ch.1,
                _ => { x.trace = ch.1; x.msg.push_str(" [a second run of the same execution behaved differently: the result depends on earlier calls or on timing]"); }
            }
            x.section = name.into();
            self.violations.push(x);
        }
    }

    /// Report a finding made by a bespoke explorer (BFS, scheduler).
    pub fn violation(&mut self, section: &str, msg: String, trace: Vec<String>) { self.violations.push(Violation { section: section.into(), trail: vec![], msg, trace }); }
    /// the next section takes the number of the last one (a section explored in several passes)
    pub fn forget_last(&mut self) { self.index -= 1; self.names.pop(); }
    pub fn report(&mut self, r: SectionReport) { self.reports.push(r); }
}

enum Fault { Fail(String), Engine(String) }
fn exec(f: &(dyn Fn(&mut Ch) -> Res + Sync), prefix: &[u32], budget: u32, tracing: bool, st: &mut Stats) -> (Result<(), Fault>, (Vec<Pt>, Vec<String>)) {
    st.runs += 1;
    let mut ch = Ch { prefix, trail: Vec::with_capacity(16), budget, used: 0, tracing, trace: vec![], st };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
    let r = match r {
        Ok(Ok(())) => if ch.trail.len() < prefix.len() { Err(Fault::Engine(format!("replay diverged: {} of {} choices used", ch.trail.len(), prefix.len()))) } else { Ok(()) },
        Ok(Err(m)) => Err(Fault::Fail(m)),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if ours(&loc) { Err(Fault::Engine(format!("harness panic: {} at {} (choices {:?})", msg, loc, ch.choices()))) }
            else { Err(Fault::Fail(format!("panicked: {} ({})", clip(&msg), loc))) }
        }
    };
    let Ch { trail, trace, .. } = ch;
    (r, (trail, trace))
}

// ---- JSON and the outer process ------------------------------------------------------------
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }
pub fn to_json(run: &Run, wall: f64) -> String {
    let secs: Vec<String> = run.reports.iter().map(|r| format!(
        "{{\"name\":{},\"bound\":{},\"deviations\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"complete\":{},\"wall_s\":{:.3},\"outcomes\":{{{}}},\"samples\":[{}]}}",
        js(&r.name), js(&r.bound), r.deviations.map(|d| d.to_string()).unwrap_or("null".into()), r.executions, r.transitions, r.states, r.complete, r.wall,
        r.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        r.samples.iter().map(|s| arr(s)).collect::<Vec<_>>().join(","))).collect();
    let vs: Vec<String> = run.violations.iter().map(|v| format!("{{\"section\":{},\"trail\":{:?},\"msg\":{},\"trace\":{}}}", js(&v.section), v.trail, js(&v.msg), arr(&v.trace))).collect();
    let ks: Vec<String> = run.known.iter().map(|(a, b)| format!("{{\"id\":{},\"what\":{}}}", js(a), js(b))).collect();
    format!("{{\"wall_s\":{:.3},\"error\":{},\"sections\":[{}],\"violations\":[{}],\"known\":[{}]}}", wall,
        run.engine_error.as_ref().map(|e| js(e)).unwrap_or("null".into()), secs.join(","), vs.join(","), ks.join(","))
}

pub struct Args { pub prop: String, pub thorough: bool, pub out: String, pub secs: u64, pub replay: Option<(String, Vec<u32>)>, pub only: Option<String> }
pub fn args() -> Args {
    let mut a = Args { prop: String::new(), thorough: false, out: String::new(), secs: 3600, replay: None, only: None };
    let mut it = std::env::args().skip(1);
    let (mut sec, mut trail) = (None, vec![]);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("argument value");
        match x.as_str() {
            "--thorough" => a.thorough = true,
            "--out" => a.out = v(),
            "--secs" => a.secs = v().parse().unwrap(),
            "--section" => sec = Some(v()),
            "--only" => a.only = Some(v()),
            "--trail" => trail = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            p => a.prop = p.to_string(),
        }
    }
    a.replay = sec.map(|s| (s, trail));
    a
}

/// Run `body` in a forked child under supervision: the child dying of a signal, or one execution
/// running for longer than `hang_ms`, is traced back to one execution and re-run alone; if it does
/// it again it is a violation, otherwise an engine error.
fn hang_ms(a: &Args) -> u64 { match (a.prop == "C23", a.thorough) { (false, false) => 90_000, (true, false) => 240_000, (false, true) => 300_000, (true, true) => 1_200_000 } }
pub fn supervise(a: &Args, body: impl Fn(&mut Run)) -> i32 {
    std::env::set_var("RUST_BACKTRACE", "0"); std::env::set_var("RUST_LIB_BACKTRACE", "0"); // error texts must not depend on the caller's environment
    install_panic_hook();
    let sz = std::mem::size_of::<Shared>();
    let p = unsafe { libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    let hang = hang_ms(a);
    SHARED.store(p as usize, Relaxed);
    let sh = shared().unwrap();
    let go = |replay: Option<(String, Vec<u32>)>, single: bool, limit: Option<u64>| -> (i32, bool) {
        for s in &sh.slots { s.start_ms.store(0, Relaxed); }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let t0 = Instant::now();
            let mut run = Run::new(a.thorough, a.secs);
            run.replay = replay; run.single = single; run.only = a.only.clone();
            let r = catch_unwind(AssertUnwindSafe(|| body(&mut run)));
            if r.is_err() {
                let (m, l) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
                // outside any execution only set-up code runs: a library panic there still is one
                if ours(&l) { run.engine_error.get_or_insert(format!("harness panic: {} at {}", m, l)); }
                else { run.violation("set-up", format!("panicked: {} ({})", m, l), vec![]); }
            }
            if !single && !a.out.is_empty() { let _ = std::fs::write(&a.out, to_json(&run, t0.elapsed().as_secs_f64())); }
            let code = if run.engine_error.is_some() { 2 } else if !run.violations.is_empty() { 1 } else { 0 };
            if let Some(e) = &run.engine_error { eprintln!("engine error: {}", e); }
            unsafe { libc::_exit(code) };
        }
        let t0 = now_ms();
        loop {
            let mut stt = 0;
            let r = unsafe { libc::waitpid(pid, &mut stt, libc::WNOHANG) };
            if r == pid { return (stt, false); }
            let now = now_ms();
            let hung = sh.slots.iter().any(|s| { let b = s.start_ms.load(Acquire); b != 0 && now > b + hang });
            if hung || limit.map_or(false, |l| now > t0 + l) {
                unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut stt, 0); }
                return (stt, true);
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    };
    let (stt, hung) = go(a.replay.clone(), a.replay.is_some(), None);
    if !hung && libc::WIFEXITED(stt) { return libc::WEXITSTATUS(stt); }
    // crashed or hung: which execution was in flight?
    let now = now_ms();
    let mut cands: Vec<(usize, Vec<u32>, u64)> = sh.slots.iter().filter(|s| s.start_ms.load(Acquire) != 0)
        .map(|s| (s.section.load(Relaxed) as usize, s.trail[..s.len.load(Relaxed) as usize].to_vec(), now - s.start_ms.load(Relaxed))).collect();
    cands.sort_by_key(|c| std::cmp::Reverse(c.2));
    // section names: dry run collecting them
    let mut dry = Run::new(a.thorough, a.secs);
    dry.only = Some("\u{0}none".into());
    let _ = catch_unwind(AssertUnwindSafe(|| body(&mut dry)));
    for (sec, trail, _) in cands {
        let name = match dry.names.get(sec) { Some(n) => n.clone(), None => continue };
        let (stt, h) = go(Some((name.clone(), trail.clone())), true, Some(hang));
        if h || libc::WIFSIGNALED(stt) {
            let msg = if h { format!("does not terminate (or takes over {} s)", hang / 1000) } else { format!("process killed by signal {}", libc::WTERMSIG(stt)) };
            let mut run = Run::new(a.thorough, a.secs);
            run.violations.push(Violation { section: name, trail, msg, trace: vec![] });
            if !a.out.is_empty() { let _ = std::fs::write(&a.out, to_json(&run, 0.0)); }
            return 1;
        }
    }
    eprintln!("engine error: the checker died (status {}) and the failure could not be reproduced from one execution", stt);
    2
}

#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } }; }
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($t:tt)*) => {{
        match (&$got, &$want) { (g, w) => if g != w { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), g, w)); } }
    }};
}
/// Unwrap a library result the model says must be a success.
pub trait Need<T> { fn need(self, what: &str) -> Result<T, String>; }
impl<T, E: std::fmt::Debug> Need<T> for Result<T, E> { fn need(self, what: &str) -> Result<T, String> { self.map_err(|e| format!("{}: unexpected error {:?}", what, e)) } }
impl<T> Need<T> for Option<T> { fn need(self, what: &str) -> Result<T, String> { self.ok_or_else(|| format!("{}: unexpected None", what)) } }
