//! rustc_private driver used as RUSTC by the checks: behaves as rustc, and for the crates named in
//! VERIF_CRATES dumps facts (typed MIR, impls, ADTs, type-level tables) to VERIF_OUT as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod facts;
mod json;
mod layout;
mod mirdump;
mod queries;
mod tyser;

use rustc_middle::ty::TyCtxt;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        // dumps must not be skipped because an incremental session is reused
        config.opts.incremental = None;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("VERIF_CRATES").unwrap_or_default();
        if let Ok(out) = std::env::var("VERIF_OUT") {
            if want.split(',').any(|w| w == name) {
                let modes = std::env::var("VERIF_MODES").unwrap_or_else(|_| "facts".into());
                for m in modes.split(',') {
                    match m {
                        "facts" => facts::dump(tcx, &format!("{out}/{name}.facts.json")),
                        "layout" => layout::dump(tcx, &format!("{out}/{name}.layout.json")),
                        "queries" => queries::dump(tcx, &format!("{out}/{name}.queries.json")),
                        "mono" => facts::dump_mono(tcx, &format!("{out}/{name}.mono.json")),
                        _ => {}
                    }
                }
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let want = std::env::var("VERIF_CRATES").unwrap_or_default();
    let mir = std::env::var("VERIF_MIR").unwrap_or_default();
    if want.split(',').chain(mir.split(',')).any(|w| w == crate_name) {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
