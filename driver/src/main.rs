//! MIR fact extractor.  Injected as RUSTC_WRAPPER under `cargo +nightly check`.
//! For workspace crates of /repo it dumps, after type checking, the MIR of every
//! body (functions, closures, constants, promoteds) as JSON, with resolved
//! callees and evaluated constants; for every other crate it just runs rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use std::process::Command;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: rustc_middle::ty::TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let s = dump::dump_crate(tcx);
        std::fs::write(&self.out, s).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn arg_after<'a>(args: &'a [String], k: &str) -> Option<&'a str> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn main() {
    // argv: vdriver <rustc> <args...>
    let args: Vec<String> = std::env::args().collect();
    let rest: Vec<String> = args[1..].to_vec();
    let name = arg_after(&rest, "--crate-name").unwrap_or("").to_string();
    let ours = (name.starts_with("twiggy") || name == "job_runner")
        && std::env::var("VFACTS_OUT").is_ok();
    if !ours {
        let mut c = Command::new(&rest[0]);
        c.args(&rest[1..]);
        if name == "wasm_bindgen" {
            // rustc refuses to compile wasm-bindgen < 0.2.88; we only type-check it.
            c.env("CARGO_PKG_VERSION_PATCH", "99");
        }
        let st = c.status().expect("run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let mut a = rest.clone();
    if std::env::var("VFACTS_WORLD").as_deref() == Ok("wasm") {
        // the web API is `#![cfg(target_arch = "wasm32")]`; the analysis is target independent
        a.push("--cfg".into());
        a.push("target_arch=\"wasm32\"".into());
        a.push("-A".into());
        a.push("explicit_builtin_cfgs_in_flags".into());
    }
    let out = format!("{}/{}.json", std::env::var("VFACTS_OUT").unwrap(), name);
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&a, &mut Cb { out });
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
