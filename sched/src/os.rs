//! Stand-ins for the parts of the harness that answer OS calls; here only the fork helper is used.
pub enum Ans { Eio }
pub struct Device { pub script: Vec<Ans>, pub forever: bool }
impl Device { pub fn new(_: u64) -> Device { Device { script: vec![], forever: false } } }
pub fn with_device<R>(_: &mut Device, f: impl FnOnce() -> R) -> R { f() }
pub fn shared(n: usize) -> *mut u8 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
/// Run `f` in a forked child and return what it made; a child that dies is an error.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    const N: usize = 1 << 20;
    let m = shared(N);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        let v = f();
        let n = v.len().min(N - 8);
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), m.add(8), n); *(m as *mut u64) = n as u64 + 1; libc::_exit(0); }
    }
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    let r = unsafe {
        let n = *(m as *const u64) as usize;
        if n > 0 && libc::WIFEXITED(st) { Ok(std::slice::from_raw_parts(m.add(8), n - 1).to_vec()) } else { Err(format!("process died (status {})", st)) }
    };
    unsafe { libc::munmap(m as *mut libc::c_void, N); }
    r
}
