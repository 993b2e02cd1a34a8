//! Concurrent use (C24).  One forked fresh process per schedule; the schedule is the trail of
//! choices the runtime (rt.c) asked for; the explorer enumerates all of them.
use crate::common::*;
use crate::hist::{families, run_op, Op};
use crate::os::{in_child, shared};
use std::collections::BTreeSet;
use std::sync::Mutex;

type Res = Result<(), String>;
const MAXPTS: usize = 20000;
const MAXNEW: usize = 512;
#[repr(C)]
struct Out {
    nprefix: u32, budget: u32, cap: u32, npcs: u32,
    prefix: *const u32, pcs: *const u64,
    npts: u32, nnew: u32, nraces: u32, deadlock: u32, livelock: u32, diverged: u32, overflow: u32, switches: u32, blocked: u32, used: u32,
    accesses: u64,
    n: [u8; MAXPTS], choice: [u8; MAXPTS], paid: [u8; MAXPTS],
    newpcs: [u64; MAXNEW],
    race: [[u64; 3]; 8],
}
extern "C" {
    fn rt_setup(o: *mut Out, n: i32);
    fn rt_enter(t: i32);
    fn rt_leave();
    fn rt_go();
    fn rt_size() -> usize;
}
const TEXT: usize = 1 << 18;

/// What the threads do: the operations each of them runs, in order, and those run before they start.
struct Plan<'a> { before: Vec<&'a Op>, threads: Vec<Vec<&'a Op>> }
struct Seen { pts: Vec<(u32, u32, bool)>, results: Vec<Vec<String>>, newpcs: Vec<u64>, bad: Option<String>, diverged: bool, overflow: bool, accesses: u64, switches: u32, blocked: u32 }

fn place(pc: u64) -> String {
    let exe = std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default();
    match std::process::Command::new("addr2line").args(["-i", "-f", "-C", "-e", &exe, &format!("{:#x}", pc.saturating_sub(1))]).output() {
        Ok(o) => { let t = String::from_utf8_lossy(&o.stdout).into_owned(); let l: Vec<&str> = t.lines().collect(); l.chunks(2).take(4).map(|c| c.join(" ")).collect::<Vec<_>>().join(" < ") }
        Err(_) => format!("{:#x}", pc),
    }
}

fn execute(p: &Plan, prefix: &[u32], budget: u32, cap: u32, pcs: &[u64]) -> Result<Seen, String> {
    let size = std::mem::size_of::<Out>() + TEXT;
    assert_eq!(unsafe { rt_size() }, std::mem::size_of::<Out>(), "rt.c and conc.rs disagree");
    let m = shared(size);
    let text = unsafe { m.add(std::mem::size_of::<Out>()) };
    let out = m as *mut Out;
    unsafe {
        (*out).nprefix = prefix.len() as u32; (*out).budget = budget; (*out).cap = cap; (*out).npcs = pcs.len() as u32;
        (*out).prefix = prefix.as_ptr(); (*out).pcs = pcs.as_ptr();
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::alarm(60); }
        for o in &p.before { run_op(o); }
        let n = p.threads.len();
        unsafe { rt_setup(out, n as i32); }
        let res: Vec<Vec<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n).map(|t| {
                let ops = &p.threads[t];
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
                    let mut v = Vec::with_capacity(ops.len());
                    unsafe { rt_enter(t as i32); }
                    for o in ops { v.push(run_op(o).0); }
                    unsafe { rt_leave(); }
                    v
                }).unwrap()
            }).collect();
            unsafe { rt_go(); }
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["thread died".into()])).collect()
        });
        // and once more afterwards, alone: what the threads left behind must be harmless
        let after: Vec<Vec<String>> = p.threads.iter().map(|v| v.iter().map(|o| run_op(o).0).collect()).collect();
        let mut b: Vec<u8> = vec![];
        for v in res.iter().chain(after.iter()) { for x in v { b.extend_from_slice(&(x.len() as u32).to_le_bytes()); b.extend_from_slice(x.as_bytes()); } }
        let k = b.len().min(TEXT - 8);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), text.add(8), k); *(text as *mut u64) = k as u64 + 1; libc::_exit(0); }
    }
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    let o = unsafe { &*out };
    let mut seen = Seen { pts: vec![], results: vec![], newpcs: vec![], bad: None, diverged: o.diverged != 0, overflow: o.overflow != 0, accesses: o.accesses, switches: o.switches, blocked: o.blocked };
    for i in 0..(o.npts as usize).min(MAXPTS) { seen.pts.push((o.n[i] as u32, o.choice[i] as u32, o.paid[i] != 0)); }
    seen.newpcs = o.newpcs[..(o.nnew as usize).min(MAXNEW)].to_vec();
    let k = unsafe { *(text as *const u64) } as usize;
    seen.bad = if o.deadlock != 0 { Some("deadlock: every unfinished thread is blocked".into()) }
        else if o.livelock != 0 { Some("livelock: the threads spin and none makes progress".into()) }
        else if o.nraces != 0 { let r = o.race[0]; Some(format!("data race: {} and, unordered with it, {}", place(r[0]), place(r[1]))) }
        else if libc::WIFSIGNALED(st) { Some(format!("process killed by signal {} ({})", libc::WTERMSIG(st), if libc::WTERMSIG(st) == libc::SIGALRM { "no progress for 60 s" } else { "crash" })) }
        else if k == 0 && o.diverged == 0 { Some(format!("process exited early (status {})", st)) }
        else { None };
    if k > 0 {
        let mut b = unsafe { std::slice::from_raw_parts(text.add(8), k - 1) };
        for v in p.threads.iter().chain(p.threads.iter()) {
            let mut rs = vec![];
            for _ in v {
                if b.len() < 4 { break; }
                let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
                let n = n.min(b.len() - 4);
                rs.push(String::from_utf8_lossy(&b[4..4 + n]).into_owned());
                b = &b[4 + n..];
            }
            seen.results.push(rs);
        }
    }
    unsafe { libc::munmap(m as *mut libc::c_void, size); }
    Ok(seen)
}

fn judge(c: &mut Ch, p: &Plan, want: &dyn Fn(&Op) -> Option<String>, budget: u32, pcs: &[u64], learnt: &Mutex<BTreeSet<u64>>, over: &Mutex<bool>) -> Res {
    let s = execute(p, c.rest(), budget, CAP, pcs)?;
    if s.diverged { panic!("ENGINE: a schedule could not be repeated"); }
    if s.overflow { *over.lock().unwrap() = true; }
    for (n, ch, paid) in &s.pts {
        let got = if *paid { c.dev(*n as usize) } else { c.pick(*n as usize) };
        if got != *ch as usize { panic!("ENGINE: explorer and runtime disagree about a choice"); }
    }
    c.note(|| format!("{} | {:?} | {} accesses, {} switches, {} futex waits, {} choices", names(p), s.pts.iter().map(|x| x.1).collect::<Vec<_>>(), s.accesses, s.switches, s.blocked, s.pts.len()));
    { let mut l = learnt.lock().unwrap(); for pc in &s.newpcs { l.insert(*pc); } }
    if let Some(b) = s.bad { return Err(format!("{}: {}", names(p), b)); }
    for (t, v) in p.threads.iter().chain(p.threads.iter()).enumerate() {
        ensure!(s.results.len() > t && s.results[t].len() == v.len(), "{}: results missing", names(p));
        for (o, got) in v.iter().zip(&s.results[t]) {
            if let Some(w) = want(o) {
                if t < p.threads.len() { same!(got, &w, "{}: thread {} running {} (expected: its result alone)", names(p), t, o.name); }
                else { same!(got, &w, "{}: {} again after the threads finished (expected: its result alone)", names(p), o.name); }
            }
            c.step();
        }
    }
    let mut made: Vec<(String, Vec<u8>)> = vec![];
    for (o, got) in p.threads.iter().chain(p.threads.iter()).flatten().zip(s.results.iter().flatten()) {
        if !o.name.starts_with("new mnemonic") { continue; }
        let e = got.strip_prefix("valid ").map(refmodel::hash::unhex);
        ensure!(e.is_some(), "{}: {} gave {:?}", names(p), o.name, got);
        let e = e.unwrap();
        for (n, f) in &made { ensure!(!e.windows(8).any(|a| f.windows(8).any(|b| a == b)), "{}: two mnemonics ({} and {}) share random bytes: {:?} and {:?}", names(p), n, o.name, f, e); }
        made.push((o.name.clone(), e));
    }
    c.steps(s.switches as u64);
    c.state(&(names(p), s.pts.iter().map(|x| x.1).collect::<Vec<_>>()));
    if s.blocked > 0 { c.fact("schedules in which a thread waited for another"); }
    Ok(())
}
fn names(p: &Plan) -> String {
    let t = p.threads.iter().map(|v| v.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(", then ")).collect::<Vec<_>>().join("  ||  ");
    if p.before.is_empty() { t } else { format!("(used before) {}", t) }
}
const CAP: u32 = 200;

pub fn c24(r: &mut Run) {
    let fams = families();
    let mut ops: Vec<(&'static str, &Op)> = vec![];
    for (n, v) in &fams { for o in v { if !o.fresh { ops.push((n, o)); } } }
    let fresh: Vec<&Op> = fams.iter().flat_map(|f| f.1.iter()).filter(|o| o.fresh && o.name == "generate").collect();
    let nseeds = r.q(3, 6);
    let seeds: Vec<&Op> = fams.iter().filter(|f| f.0 == "seeds").flat_map(|f| f.1.iter()).take(nseeds).collect();
    let base: Mutex<std::collections::HashMap<String, String>> = Default::default();
    if !r.dry() {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let todo: Vec<&Op> = ops.iter().filter(|(n, _)| *n != "seeds").map(|x| x.1).chain(seeds.iter().cloned()).collect();
        std::thread::scope(|s| for _ in 0..r.threads { s.spawn(|| loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if i >= todo.len() { break; }
            let o = todo[i];
            let t = in_child(|| run_op(o).0.into_bytes()).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_else(|e| e);
            base.lock().unwrap().insert(o.name.clone(), t);
        }); });
    }
    let base = base.into_inner().unwrap();
    let want = |o: &Op| -> Option<String> { base.get(&o.name).cloned() };

    // representatives: the first operations to touch each table, and one of every other kind
    let find = |start: &str| -> &Op { ops.iter().map(|x| x.1).find(|o| o.name.starts_with(start)).unwrap_or_else(|| panic!("no operation named {}…", start)) };
    let zh = ops.iter().map(|x| x.1).find(|o| o.name.starts_with("from_phrase Zh") && base.get(&o.name).map_or(true, |b| !b.starts_with("error"))).unwrap();
    let mut reps: Vec<&Op> = vec![find("from_entropy En 16"), find("from_entropy Zh 16"), find("from_phrase En"), zh, find("word 0 En"), find("number of \"abandon\" En")];
    reps.push(fresh[0]);
    let core = reps.len();
    for n in ["word 1024 Zh", "validate, size, language En", "prefix \"ab\" En", "root of a 16 byte", "private child 0x0", "private child 0x80000000", "public child 0x0", "private key xprv", "public key xpub", "record xprv", "path \"m/1/2'/3\"", "sign 3 with 1", "ripemd \"abc\"", "version 0x488ade4", "code en"] {
        if let Some(o) = ops.iter().map(|x| x.1).find(|o| o.name.to_lowercase().starts_with(&n.to_lowercase())) { reps.push(o) }
    }
    let cores = &reps[..core];

    // 1. first use, two threads
    explore(r, "first use, two threads", |q, pb| format!("all pairs of {} operations, one per thread, in a fresh process; all schedules with at most {} preemptions{}", reps.len(), pb, q), 1, 2, &|c| {
        let (a, b) = pair(c, reps.len());
        Plan { before: vec![], threads: vec![vec![reps[a]], vec![reps[b]]] }
    }, &want);
    explore(r, "first use of the tables, two threads", |q, pb| format!("all pairs of {} operations that build tables; at most {} preemptions{}", cores.len(), pb, q), 2, 4, &|c| {
        let (a, b) = pair(c, cores.len());
        Plan { before: vec![], threads: vec![vec![cores[a]], vec![cores[b]]] }
    }, &want);
    explore(r, "two operations each", |q, pb| format!("all pairs of threads running two of {} operations each; at most {} preemptions{}", 4, pb, q), 1, 2, &|c| {
        let four = [cores[0], cores[3], cores[5], cores[6]];
        let (a, b) = (c.pick(4), c.pick(4));
        let (x, y) = (c.pick(4), c.pick(4));
        Plan { before: vec![], threads: vec![vec![four[a], four[b]], vec![four[x], four[y]]] }
    }, &want);
    explore(r, "first use, three threads", |q, pb| format!("all triples of {} operations, one per thread; at most {} preemptions{}", cores.len(), pb, q), 1, 2, &|c| {
        let a = c.pick(cores.len()); let b = a + c.pick(cores.len() - a); let d = b + c.pick(cores.len() - b);
        Plan { before: vec![], threads: vec![vec![cores[a]], vec![cores[b]], vec![cores[d]]] }
    }, &want);
    // 2. everything against its own family, after first use
    let slow = |n: &str| n == "seeds";
    let groups: Vec<Vec<&Op>> = fams.iter().map(|f| f.1.iter().filter(|o| o.name != "generate with a failing OS source" && !slow(f.0)).collect::<Vec<_>>()).filter(|v: &Vec<&Op>| !v.is_empty()).collect();
    explore(r, "later use within a family", |q, pb| format!("all pairs of operations of each of {} families, after both ran once; at most {} preemptions{}", groups.len(), pb, q), 1, 2, &|c| {
        let g = &groups[c.pick(groups.len())];
        let (a, b) = pair(c, g.len());
        Plan { before: vec![g[a], g[b]], threads: vec![vec![g[a]], vec![g[b]]] }
    }, &want);
    explore(r, "seeds", |q, pb| format!("all pairs of {} seed derivations; at most {} preemptions{}", seeds.len(), pb, q), 1, 1, &|c| {
        let (a, b) = pair(c, seeds.len());
        Plan { before: vec![], threads: vec![vec![seeds[a]], vec![seeds[b]]] }
    }, &want);
}
/// Generating mnemonics: what one makes is its own, whoever makes one at the same time (C07).
fn making() -> Vec<Op> {
    [(12, Lang::En), (24, Lang::Zh), (15, Lang::En)].into_iter().map(|(n, k)| {
        Op { name: format!("new mnemonic, {} words {:?}", n, k), fresh: true, f: Box::new(move || {
            let m = Mnemonic::new(mtype(n), lang(k));
            let want = m39::encode(k, m.entropy());
            let ok = want.as_deref() == Some(m.phrase()) && m.entropy().len() == n / 3 * 4 && m.language() == lang(k);
            (if ok { format!("valid {}", hex(m.entropy())) } else { format!("invalid: {:?} {:?}", m.phrase(), m.entropy()) }, vec![])
        }) }
    }).collect()
}
pub fn c07(r: &mut Run) {
    let g = making();
    let none = |_: &Op| -> Option<String> { None };
    explore(r, "two threads, first mnemonics", |q, pb| format!("two threads making one mnemonic each, {} kinds, in a fresh process and again afterwards; all schedules with at most {} preemptions{}", g.len(), pb, q), 2, 4, &|c| {
        let (a, b) = pair(c, g.len());
        Plan { before: vec![], threads: vec![vec![&g[a]], vec![&g[b]]] }
    }, &none);
    explore(r, "two threads, later mnemonics", |q, pb| format!("the same after one mnemonic was made before the threads started; at most {} preemptions{}", pb, q), 2, 4, &|c| {
        let (a, b) = pair(c, g.len());
        Plan { before: vec![&g[a]], threads: vec![vec![&g[a]], vec![&g[b]]] }
    }, &none);
    explore(r, "two threads, two mnemonics each", |q, pb| format!("two threads making two mnemonics each; at most {} preemptions{}", pb, q), 1, 2, &|c| {
        let (a, b) = (c.pick(2), c.pick(2));
        Plan { before: vec![], threads: vec![vec![&g[a], &g[b]], vec![&g[b], &g[a]]] }
    }, &none);
    explore(r, "three threads", |q, pb| format!("three threads making one mnemonic each; at most {} preemptions{}", pb, q), 1, 3, &|c| {
        let a = c.pick(2);
        Plan { before: vec![], threads: vec![vec![&g[a]], vec![&g[0]], vec![&g[1]]] }
    }, &none);
}
fn pair(c: &mut Ch, n: usize) -> (usize, usize) { let a = c.pick(n); (a, a + c.pick(n - a)) }

/// Explore a section again and again until no further conflicting code location turns up: the
/// scheduling points of a pass are fixed, so that its schedules form one finite tree.
fn explore<'a>(r: &mut Run, name: &str, bound: impl Fn(&str, u32) -> String, quick: u32, thorough: u32, plan: &(dyn Fn(&mut Ch) -> Plan<'a> + Sync), want: &(dyn Fn(&Op) -> Option<String> + Sync)) {
    let pb = r.q(quick, thorough);
    let learnt: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
    let over = Mutex::new(false);
    let replay = r.replay.take();
    let mine = replay.as_ref().map_or(false, |x| x.0 == name);
    let skip = (replay.is_some() && !mine) || r.dry() || r.only.as_ref().map_or(false, |o| o != name);
    let (mut pass, mut stage) = (0, 0); // conflicts are first collected with few preemptions, which is cheap
    loop {
        pass += 1;
        let pcs: Vec<u64> = learnt.lock().unwrap().iter().cloned().collect();
        let b = bound(&format!("; {} conflicting synchronisation points, found in {} passes", pcs.len(), pass), stage);
        let (nr, nv) = (r.reports.len(), r.violations.len());
        let n = stage;
        r.section_dev(name, b.clone(), n, |c| { let p = plan(c); judge(c, &p, want, n, &pcs, &learnt, &over) });
        if skip || r.engine_error.is_some() { break; }
        if r.violations.len() > nv {
            // a replay re-finds the pass first, then runs the one schedule in it
            if mine { r.violations.truncate(nv); r.reports.truncate(nr); r.replay = replay.clone(); r.forget_last(); r.section_dev(name, b, n, |c| { let p = plan(c); judge(c, &p, want, n, &pcs, &learnt, &over) }); }
            break;
        }
        if !r.reports.last().map_or(true, |x| x.complete) { break; }
        if learnt.lock().unwrap().len() == pcs.len() { if stage == pb { break; } stage += 1; }
        r.reports.truncate(nr); r.forget_last();
    }
    r.replay = replay;
    if *over.lock().unwrap() { if let Some(x) = r.reports.last_mut() { x.complete = false; } }
}
