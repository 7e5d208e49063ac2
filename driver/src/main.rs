//! mirdump: a rustc driver that exports, as JSON, the type-checked, resolved MIR that is
//! reachable from a set of root functions of the crate being compiled.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. It never runs any of the
//! code it looks at.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod audit;
mod json;
mod dump;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if let Ok(out) = std::env::var("MIRDUMP_AUDIT") {
            std::fs::write(out, audit::audit(tcx)).expect("write audit");
        } else if let Ok(out) = std::env::var("MIRDUMP_OUT") {
            let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
            if want.split(',').any(|c| c == name) {
                let j = dump::dump(tcx);
                std::fs::write(format!("{out}/{name}.json"), j).expect("write dump");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
