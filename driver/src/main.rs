//! MIR extractor: acts as rustc (via RUSTC_WORKSPACE_WRAPPER) and, for the crate
//! named by MIRDUMP_CRATE, writes the resolved MIR of every body to MIRDUMP_OUT
//! as JSON lines.  Nothing is executed: it only runs rustc's analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    active: bool,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.active {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                dump::dump(tcx, &out);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "rumpy".into());
    let mut active = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            if let Some(n) = it.next() {
                active = *n == want;
            }
        }
    }
    if active {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { active });
}
