//! Item facts: signatures, visibilities, attributes, fields, impls, auto traits.
use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt, print::{with_no_trimmed_paths, with_no_visible_paths}};
use rustc_span::sym;
use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};

pub fn tystr<'tcx>(t: impl std::fmt::Display) -> String { relocate(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))) }
/// Rc and Arc have moved between modules of `alloc` over compiler versions.
fn relocate(s: String) -> String { if s.contains("alloc::rcs::") { s.replace("alloc::rcs::arc::", "alloc::sync::").replace("alloc::rcs::rc::", "alloc::rc::") } else { s } }
pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String { relocate(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))) }
fn vis(tcx: TyCtxt<'_>, d: DefId) -> String {
    match tcx.visibility(d) {
        ty::Visibility::Public => "pub".into(),
        ty::Visibility::Restricted(m) => { let p = path(tcx, m.to_def_id()); if m.to_def_id().is_crate_root() { "crate".into() } else { p } }
    }
}
fn attrs(tcx: TyCtxt<'_>, d: LocalDefId) -> J {
    let h = tcx.local_def_id_to_hir_id(d);
    J::A(tcx.hir_attrs(h).iter().map(|a| J::S(format!("{:?}", a))).collect())
}
pub fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: ty::ParamEnv<'tcx>, t: Ty<'tcx>, tr: Option<DefId>) -> J {
    let Some(tr) = tr else { return J::Null };
    let te = ty::TypingEnv::new(env, ty::TypingMode::PostAnalysis);
    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
    J::B(infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions())
}
fn generics(tcx: TyCtxt<'_>, d: DefId) -> (J, J) {
    let g = tcx.generics_of(d);
    let names: Vec<String> = g.own_params.iter().map(|p| match p.kind {
        ty::GenericParamDefKind::Lifetime => format!("{}", p.name),
        ty::GenericParamDefKind::Type { .. } => format!("{}", p.name),
        ty::GenericParamDefKind::Const { .. } => format!("const {}", p.name),
    }).collect();
    let mut preds: Vec<String> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| tystr(p)).collect();
    preds.sort();
    (names.into(), preds.into())
}
pub fn dump(tcx: TyCtxt<'_>, scope: &str) -> J {
    let (mut fns, mut structs, mut impls, mut others) = (vec![], vec![], vec![], vec![]);
    let send = tcx.get_diagnostic_item(sym::Send);
    let sync = tcx.lang_items().sync_trait();
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        if !crate::in_scope(tcx, did, scope) && !matches!(tcx.def_kind(did), DefKind::Impl { .. } | DefKind::Struct) { 
            // assoc fns print as `<T as Trait>::f`, whose text still contains the module path
            continue }
        let p = path(tcx, did);
        let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(did).source_callsite().lo());
        let line = sp.line;
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = tcx.liberate_late_bound_regions(did, sig);
                let te = ty::TypingEnv::post_analysis(tcx, did);
                let (g, pr) = generics(tcx, did);
                let parent = tcx.opt_parent(did).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. } | DefKind::Trait));
                let (mut pself, mut ptrait) = (J::Null, J::Null);
                if let Some(pp) = parent { if let DefKind::Impl { of_trait } = tcx.def_kind(pp) {
                    pself = J::S(tystr(tcx.type_of(pp).instantiate_identity().skip_norm_wip()));
                    if of_trait { ptrait = J::S(tystr(tcx.impl_trait_ref(pp).instantiate_identity().skip_norm_wip())); }
                } else { ptrait = J::S(path(tcx, pp)); } }
                let is_async = tcx.asyncness(did).is_async();
                let mut out = sig.output();
                let mut fut = J::Null;
                if is_async {
                    let erased = tcx.erase_and_anonymize_regions(out);
                    let rev = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(erased)).unwrap_or(erased);
                    fut = obj(vec![("send", implements(tcx, te.param_env, rev, send)), ("sync", implements(tcx, te.param_env, rev, sync))]);
                    if let ty::Coroutine(_, a) = rev.kind() { out = a.as_coroutine().return_ty(); }
                }
                fns.push(obj(vec![("path", p.into()), ("name", tcx.item_name(did).to_string().into()), ("line", line.into()),
                    ("self", pself), ("trait", ptrait), ("vis", vis(tcx, did).into()), ("async", is_async.into()), ("future", fut),
                    ("inputs", sig.inputs().iter().map(|t| tystr(*t)).collect::<Vec<_>>().into()), ("output", tystr(out).into()),
                    ("unsafe", J::B(!sig.safety().is_safe())),
                    ("generics", g), ("preds", pr), ("attrs", attrs(tcx, d))]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let te = ty::TypingEnv::post_analysis(tcx, did);
                let (g, pr) = generics(tcx, did);
                let fields: Vec<J> = adt.all_fields().map(|f| {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    obj(vec![("name", f.name.to_string().into()), ("ty", tystr(fty).into()), ("vis", vis(tcx, f.did).into()),
                        ("attrs", f.did.as_local().map_or(J::Null, |l| attrs(tcx, l)))])
                }).collect();
                structs.push(obj(vec![("path", p.into()), ("name", tcx.item_name(did).to_string().into()), ("line", line.into()), ("vis", vis(tcx, did).into()), ("kind", format!("{:?}", tcx.def_kind(did)).into()),
                    ("fields", J::A(fields)), ("generics", g), ("preds", pr), ("attrs", attrs(tcx, d)),
                    ("send", implements(tcx, te.param_env, t, send)), ("sync", implements(tcx, te.param_env, t, sync)),
                    ("drop", J::B(adt.has_dtor(tcx)))]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let (g, pr) = generics(tcx, did);
                let tr = if of_trait { J::S(tystr(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip())) } else { J::Null };
                let uns = of_trait && !tcx.impl_trait_header(did).safety.is_safe();
                let neg = of_trait && tcx.impl_polarity(did) == ty::ImplPolarity::Negative;
                let items: Vec<String> = tcx.associated_item_def_ids(did).iter().filter_map(|x| tcx.opt_item_name(*x)).map(|n| n.to_string()).collect();
                impls.push(obj(vec![("self", tystr(st).into()), ("trait", tr), ("line", line.into()), ("generics", g), ("preds", pr), ("attrs", attrs(tcx, d)), ("unsafe", uns.into()), ("negative", neg.into()), ("items", items.into()),
                    ("module", path(tcx, tcx.parent_module_from_def_id(d).to_def_id()).into())]));
            }
            k @ (DefKind::Mod | DefKind::TyAlias | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::Trait) => {
                others.push(obj(vec![("path", p.into()), ("kind", format!("{:?}", k).into()), ("vis", vis(tcx, did).into())]));
            }
            _ => {}
        }
    }
    let _ = false.has_escaping();
    obj(vec![("fns", J::A(fns)), ("structs", J::A(structs)), ("impls", J::A(impls)), ("others", J::A(others))])
}
trait Dummy { fn has_escaping(&self) -> bool; }
impl Dummy for bool { fn has_escaping(&self) -> bool { let _ = |t: Ty<'_>| t.has_escaping_bound_vars(); *self } }
