//! fxdriver: a rustc driver that analyses the code fieldx generates (and fieldx's own containers) on rustc's MIR.
//! It never runs the analysed program.
#![feature(rustc_private)]
#![allow(rustc::default_hash_types, rustc::potential_query_instability)]
extern crate rustc_abi; extern crate rustc_attr_ir; extern crate rustc_driver; extern crate rustc_hir; extern crate rustc_index; extern crate rustc_infer;
extern crate rustc_interface; extern crate rustc_middle; extern crate rustc_session; extern crate rustc_span; extern crate rustc_trait_selection;
mod facts; mod interp; mod json; mod models; mod render;
use json::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::Body;
use rustc_middle::ty::TyCtxt;
use std::{collections::HashMap, rc::Rc};

pub struct Bodies<'tcx> {
    pub main: HashMap<LocalDefId, Rc<Body<'tcx>>>,
    pub promoted: HashMap<LocalDefId, Vec<Rc<Body<'tcx>>>>,
}
struct Cb { out: String, scope: String, want_interp: bool }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = Bodies { main: HashMap::new(), promoted: HashMap::new() };
        if self.want_interp {
            // Collect pre-drop-elaboration MIR of every local body before later passes steal it.
            if tcx.dcx().has_errors().is_none() {
                for &d in tcx.mir_keys(()).iter() {
                    use rustc_hir::def::DefKind::*;
                    match tcx.def_kind(d) { Fn | AssocFn | Closure | SyntheticCoroutineBody => {}, _ => continue }
                    let (b, p) = tcx.mir_promoted(d);
                    bodies.main.insert(d, Rc::new(b.borrow().clone()));
                    bodies.promoted.insert(d, p.borrow().iter().map(|x| Rc::new(x.clone())).collect());
                }
            }
        }
        let _ = tcx.analysis(());
        if tcx.dcx().has_errors().is_some() { return Compilation::Stop; }
        let facts = facts::dump(tcx, &self.scope);
        let mut fns = J::A(vec![]);
        if self.want_interp { fns = interp::run_all(tcx, &bodies, &self.scope); }
        let all = obj(vec![("facts", facts), ("fns", fns)]);
        std::fs::write(&self.out, all.text()).expect("write output");
        Compilation::Stop
    }
}
pub fn in_scope(tcx: TyCtxt<'_>, d: DefId, scope: &str) -> bool {
    d.is_local() && tcx.def_path_str(d).contains(scope)
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("FXD_OUT").unwrap_or_else(|_| "/dev/null".into());
    let scope = std::env::var("FXD_SCOPE").unwrap_or_default();
    let want = std::env::var("FXD_FACTS_ONLY").is_err();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let mut cb = Cb { out, scope, want_interp: want };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
