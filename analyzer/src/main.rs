#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod api;
mod dom;
mod eng;
mod spec;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    spec: Option<String>,
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let (Some(s), Some(o)) = (&self.spec, &self.out) {
            spec::analyse(tcx, s, o);
        }
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let dir = std::env::var("BFCHECK_DIR").unwrap_or_default();
    let spec = format!("{dir}/{crate_name}.spec.json");
    let (spec, out) = if !dir.is_empty() && std::path::Path::new(&spec).exists() {
        (Some(spec), Some(format!("{dir}/{crate_name}.out.json")))
    } else {
        (None, None)
    };
    if spec.is_none() {
        // not a fixture: behave as rustc
        struct Plain;
        impl Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { spec, out });
}
