//! C24: the library under every thread schedule within a preemption bound.
#![allow(dead_code)]
#[path = "../../harness/src/common.rs"]
mod common;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/hist.rs"]
mod hist;
mod conc;
mod os;

/// The system allocator, telling the race monitor which memory is fresh.
struct Alloc;
extern "C" { fn rt_fresh(p: *mut u8, n: usize); }
use std::alloc::{GlobalAlloc, Layout, System};
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); rt_fresh(p, l.size()); p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); rt_fresh(p, l.size()); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, n.min(l.size())); self.dealloc(p, l); }
        q
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn main() {
    let a = engine::args();
    let code = engine::supervise(&a, |run| {
        if let Err(e) = refmodel::self_test() { run.engine_error = Some(e); return; }
        match a.prop.as_str() { "C24" => conc::c24(run), "C07" => conc::c07(run), p => run.engine_error = Some(format!("no such property: {}", p)) }
    });
    std::process::exit(code);
}
