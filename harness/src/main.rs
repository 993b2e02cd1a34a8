#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! Exhaustive explorer of the kms library: `mck PROPERTY [--thorough] [--out FILE] …`.
mod b32;
mod b39;
mod crash;
mod common;
mod engine;
mod ext;
mod hist;
mod near;
mod nest;
mod os;
mod rare;
mod wipe;

#[global_allocator]
static ALLOC: wipe::Alloc = wipe::Alloc;

fn main() {
    let a = engine::args();
    let code = engine::supervise(&a, |run| {
        if let Err(e) = refmodel::self_test() { run.engine_error = Some(e); return; }
        let t = run.thorough;
        b39::set_thorough(t);
        b32::set_thorough(t);
        match a.prop.as_str() {
            "C01" => b39::c01(run), "C02" => b39::c02(run), "C03" => b39::c03(run), "C04" => b39::c04(run), "C05" => b39::c05(run),
            "C06" => b39::c06(run), "C26" => b39::c26(run), "C29" => b39::c29(run),
            "C08" => b32::c08(run), "C09" => b32::c09(run), "C10" => b32::c10(run), "C11" => b32::c11(run), "C12" => b32::c12(run),
            "C13" => b32::c13(run), "C14" => b32::c14(run), "C15" => b32::c15(run), "C28" => b32::c28(run), "C30" => b32::c30(run),
            "C16" => ext::c16(run), "C17" => ext::c17(run), "C18" => ext::c18(run), "C19" => ext::c19(run), "C21" => ext::c21(run),
            "C25" => ext::c25(run), "C27" => ext::c27(run), "C07" => os::c07(run), "C20" => wipe::c20(run), "C23" => { hist::c23(run); nest::c23(run); nest::panics(run); near::sections(run, &near::GROUPS) }, "C22" => crash::c22(run),
            p => run.engine_error = Some(format!("no such property: {}", p)),
        }
    });
    std::process::exit(code);
}
