// The scheduler runtime is plain C, so that it is not instrumented itself.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("cannot run the C compiler").success());
    run(Command::new("gcc").args(["-O2", "-fPIC", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-Wall", "-c", "rt.c", "-o"]).arg(format!("{}/rt.o", out)));
    run(Command::new("ar").arg("crs").arg(format!("{}/librt_sched.a", out)).arg(format!("{}/rt.o", out)));
    println!("cargo:rerun-if-changed=rt.c");
    // the whole object: the hooks are referenced from std too
    println!("cargo:rustc-link-arg={}/rt.o", out);
}
