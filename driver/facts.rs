//! Generic facts of the local crate, and monomorphic bodies reachable from root functions.
use crate::json::J;
use crate::mirdump::{inst_key, key, kind, BodySer};
use crate::tyser::{path, tystr, Types};
use rustc_data_structures::fx::FxHashSet;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_trait_selection::traits::query::evaluate_obligation::InferCtxtExt as _;

pub fn loc(tcx: TyCtxt<'_>, d: DefId) -> J {
    let sp = tcx.def_span(d).source_callsite();
    let p = tcx.sess.source_map().lookup_char_pos(sp.lo());
    J::s(format!("{}:{}", p.file.name.prefer_local_unconditionally(), p.line))
}
/// Where lifetimes occur in a type: (lifetime, what holds it).
struct Regions<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, String)>,
}
impl<'tcx> Regions<'tcx> {
    fn add(&mut self, r: ty::Region<'tcx>, ctx: String) {
        let n = r.to_string();
        let n = if n.is_empty() { format!("{r:?}") } else { n };
        self.out.push((n, ctx));
    }
}
impl<'tcx> ty::TypeVisitor<TyCtxt<'tcx>> for Regions<'tcx> {
    fn visit_region(&mut self, r: ty::Region<'tcx>) {
        self.add(r, "other".into());
    }
    fn visit_ty(&mut self, t: ty::Ty<'tcx>) {
        use ty::TypeSuperVisitable;
        match t.kind() {
            ty::Ref(r, x, m) => {
                self.add(*r, if m.is_mut() { "mut".into() } else { "shared".into() });
                self.visit_ty(*x);
            }
            ty::Adt(d, a) => {
                let p = path(self.tcx, d.did());
                for g in a.iter() {
                    match g.kind() {
                        ty::GenericArgKind::Lifetime(r) => self.add(r, p.clone()),
                        ty::GenericArgKind::Type(t) => self.visit_ty(t),
                        _ => {}
                    }
                }
            }
            _ => t.super_visit_with(self),
        }
    }
}
fn regions<'tcx>(tcx: TyCtxt<'tcx>, ts: &[ty::Ty<'tcx>]) -> J {
    use ty::TypeVisitor;
    let mut r = Regions { tcx, out: vec![] };
    for t in ts {
        r.visit_ty(*t);
    }
    J::A(r.out.into_iter().map(|(a, b)| J::A(vec![J::s(a), J::s(b)])).collect())
}
pub fn preds<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    let p = tcx.clauses_of(d).instantiate_identity(tcx);
    J::A(p.clauses.iter().map(|c| J::s(tystr(c.skip_norm_wip()))).collect())
}
fn impl_info<'tcx>(tcx: TyCtxt<'tcx>, types: &mut Types<'tcx>, i: DefId) -> J {
    let mut o = vec![("key", J::s(key(tcx, i))), ("loc", loc(tcx, i))];
    let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
    let stj = types.ty(st);
    o.push(("self", stj));
    if let Some(t) = tcx.impl_opt_trait_ref(i) {
        let t = t.instantiate_identity().skip_norm_wip();
        o.push(("trait", J::s(path(tcx, t.def_id))));
        let a = types.args(t.args);
        o.push(("targs", a));
        let h = tcx.impl_trait_header(i);
        o.push(("unsafe", J::B(h.safety.is_unsafe())));
        o.push(("negative", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))));
    }
    o.push(("preds", preds(tcx, i)));
    // which of the impl's own type parameters have to implement the trait it implements
    if let Some(t) = tcx.impl_opt_trait_ref(i) {
        let tr = t.skip_binder().def_id;
        if path(tcx, tr).ends_with("::IStable") {
            let mut v = vec![];
            let g = tcx.generics_of(i);
            let args = ty::GenericArgs::identity_for_item(tcx, i);
            for p in &g.own_params {
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    // would the impl apply to a type (char) that does not implement the trait?
                    let sub = tcx.mk_args_from_iter(args.iter().enumerate().map(|(k, a)| {
                        if k == p.index as usize { tcx.types.char.into() } else { a }
                    }));
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::non_body_analysis(tcx, i));
                    let mut open = true;
                    for c in tcx.clauses_of(i).instantiate(tcx, sub).clauses {
                        let c = c.skip_norm_wip();
                        let ob = rustc_infer::traits::Obligation::new(tcx, rustc_infer::traits::ObligationCause::dummy(), pe, c);
                        if !infcx.predicate_may_hold(&ob) {
                            open = false;
                        }
                    }
                    v.push(J::A(vec![J::s(p.name.to_string()), J::B(!open)]));
                }
            }
            o.push(("param_impls", J::A(v)));
        }
    }
    o.push((
        "items",
        J::A(
            tcx.associated_item_def_ids(i)
                .iter()
                .map(|d| J::s(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default()))
                .collect(),
        ),
    ));
    J::O(o)
}
pub fn fn_info<'tcx>(
    tcx: TyCtxt<'tcx>,
    types: &mut Types<'tcx>,
    d: LocalDefId,
    o: &mut Vec<(&'static str, J)>,
) {
    let def = d.to_def_id();
    o.push(("path", J::s(path(tcx, def))));
    o.push(("key", J::s(key(tcx, def))));
    o.push(("name", J::s(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default())));
    o.push(("loc", loc(tcx, def)));
    o.push(("kind", J::s(format!("{:?}", tcx.def_kind(def)))));
    let parent = tcx.parent(def);
    o.push(("parent", J::s(key(tcx, parent))));
    if let DefKind::Impl { .. } = tcx.def_kind(parent) {
        let i = impl_info(tcx, types, parent);
        o.push(("impl", i));
    }
    if let DefKind::Trait = tcx.def_kind(parent) {
        o.push(("intrait", J::s(path(tcx, parent))));
    }
    let mut par = parent;
    // closures: the enclosing fn
    while matches!(tcx.def_kind(par), DefKind::Closure) {
        par = tcx.parent(par);
    }
    o.push(("owner", J::s(key(tcx, par))));
    let is_fn = matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn);
    if is_fn {
        let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
        o.push(("unsafe", J::B(!sig.safety().is_safe())));
        o.push(("abi", J::s(format!("{:?}", sig.abi()))));
        let ins = sig.inputs().skip_binder().iter().map(|t| types.ty(*t)).collect();
        o.push(("inputs", J::A(ins)));
        let out = types.ty(sig.output().skip_binder());
        o.push(("output", out));
        o.push(("sig", J::s(tystr(sig))));
        let lib = tcx.liberate_late_bound_regions(def, sig);
        let r = regions(tcx, lib.inputs());
        o.push(("rin", r));
        let r = regions(tcx, &[lib.output()]);
        o.push(("rout", r));
        if let DefKind::Impl { .. } = tcx.def_kind(parent) {
            let r = regions(tcx, &[tcx.type_of(parent).instantiate_identity().skip_norm_wip()]);
            o.push(("rself", r));
        }
        if let Some(t) = lib.inputs().first() {
            if let ty::Ref(r, x, m) = t.kind() {
                let x = types.ty(*x);
                o.push(("recv", J::A(vec![J::s(r.to_string()), J::B(m.is_mut()), x])));
            }
        }
        o.push((
            "self_param",
            J::B(tcx.opt_associated_item(def).map(|a| a.is_method()).unwrap_or(false)),
        ));
        let ev = tcx.effective_visibilities(());
        o.push(("pub", J::B(ev.is_reachable(d))));
        o.push(("exported", J::B(ev.is_exported(d))));
        o.push(("vis", J::B(tcx.visibility(def).is_public())));
        o.push(("preds", preds(tcx, def)));
    }
}
/// a type in its normal form, without regions
fn plain<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    let t = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t)).unwrap_or(t);
    tcx.erase_and_anonymize_regions(t)
}
/// the fixed linker name of an exported function, if it has one
fn exported_symbol(tcx: TyCtxt<'_>, def: DefId) -> Option<String> {
    use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags as Fl;
    let a = tcx.codegen_fn_attrs(def);
    if let Some(n) = a.symbol_name {
        return Some(n.to_string());
    }
    if a.flags.contains(Fl::NO_MANGLE) {
        return Some(tcx.item_name(def).to_string());
    }
    None
}
const FOREIGN: &[&str] = &[
    "core::option::", "core::result::", "core::bool::", "core::mem::", "core::ops::control_flow::", "core::ops::try_trait::",
    "core::convert::", "core::ptr::non_null::", "core::cmp::", "core::borrow::", "core::clone::", "core::default::", "core::ops::deref::",
    "core::ops::function::", "core::pin::", "core::task::", "core::marker::", "core::cell::", "core::tuple::", "core::hint::",
];
/// Whether an associated constant is the table an implementation of `IConstConstructor` builds.
fn is_vtable(tcx: TyCtxt<'_>, def: DefId) -> bool {
    let parent = tcx.parent(def);
    matches!(tcx.def_kind(parent), DefKind::Impl { of_trait: true })
        && path(tcx, tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip().def_id).ends_with("::IConstConstructor")
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut types = Types::new(tcx);
    let mut fns = vec![];
    let mut called: Vec<DefId> = vec![];
    for d in tcx.mir_keys(()) {
        let def = d.to_def_id();
        let mut o = vec![];
        fn_info(tcx, &mut types, *d, &mut o);
        let dk = tcx.def_kind(def);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && tcx.hir_maybe_body_owned_by(*d).is_some()
        {
            let body = tcx.optimized_mir(def);
            let env = TypingEnv::post_analysis(tcx, def);
            let mut s = BodySer { tcx, types: &mut types, env, body, found: None, called: Some(&mut called) };
            let b = s.ser();
            o.push(("body", b));
            if !matches!(dk, DefKind::Closure) {
                if let Some(n) = exported_symbol(tcx, def) {
                    o.push(("symbol", J::s(n)));
                    let t = Ty::new_fn_ptr(tcx, tcx.fn_sig(def).instantiate_identity().skip_norm_wip());
                    o.push(("fnptr", J::s(tystr(plain(tcx, t)))));
                }
            }
        }
        fns.push(J::O(o));
    }
    // functions declared in extern blocks, and statics with what initialises them
    let mut externs = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let def = d.to_def_id();
        match tcx.def_kind(def) {
            DefKind::Fn if tcx.is_foreign_item(def) => {
                let mut o = vec![("path", J::s(path(tcx, def))), ("key", J::s(key(tcx, def)))];
                let n = tcx.codegen_fn_attrs(def).symbol_name.unwrap_or(tcx.item_name(def));
                o.push(("symbol", J::s(n.to_string())));
                let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                o.push(("abi", J::s(format!("{:?}", sig.abi()))));
                let t = Ty::new_fn_ptr(tcx, sig);
                o.push(("fnptr", J::s(tystr(plain(tcx, t)))));
                o.push(("sig", J::s(tystr(sig))));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                externs.push(J::O(o));
            }
            DefKind::AssocConst { .. } if is_vtable(tcx, def) => {
                let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let tj = types.ty(ty);
                let mut o = vec![("path", J::s(path(tcx, def))), ("key", J::s(key(tcx, def))), ("name", J::s(tcx.item_name(def).to_string())), ("ty", tj)];
                o.push(("impl", impl_info(tcx, &mut types, tcx.parent(def))));
                let body = tcx.mir_for_ctfe(def);
                let env = TypingEnv::post_analysis(tcx, def);
                let mut s = BodySer { tcx, types: &mut types, env, body, found: None, called: Some(&mut called) };
                let b = s.ser();
                o.push(("body", b));
                consts.push(J::O(o));
            }
            DefKind::Static { .. } if !tcx.is_foreign_item(def) => {
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let tj = types.ty(t);
                let body = tcx.mir_for_ctfe(def);
                let env = TypingEnv::post_analysis(tcx, def);
                let mut s = BodySer { tcx, types: &mut types, env, body, found: None, called: Some(&mut called) };
                let b = s.ser();
                let k = key(tcx, def);
                statics.push(J::O(vec![
                    ("path", J::s(path(tcx, def))),
                    ("key", J::s(k)),
                    ("name", J::s(tcx.item_name(def).to_string())),
                    ("ty", tj),
                    ("sty", J::s(tystr(plain(tcx, t)))),
                    ("vis", J::B(tcx.visibility(def).is_public())),
                    ("body", b),
                ]));
            }
            _ => {}
        }
    }
    // the small library functions the bodies call
    let mut foreign = vec![];
    let mut seen: FxHashSet<DefId> = Default::default();
    while let Some(d) = called.pop() {
        if d.is_local() || !seen.insert(d) || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let p = path(tcx, d);
        let k = key(tcx, d);
        if !FOREIGN.iter().any(|f| k.starts_with(f)) || !tcx.is_mir_available(d) || tcx.intrinsic(d).is_some() {
            continue;
        }
        let mut o = vec![("path", J::s(p)), ("key", J::s(k))];
        let body = tcx.optimized_mir(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let mut s = BodySer { tcx, types: &mut types, env, body, found: None, called: Some(&mut called) };
        let b = s.ser();
        o.push(("body", b));
        foreign.push(J::O(o));
    }
    let mut impls = vec![];
    let mut adts = vec![];
    let mut traits = vec![];
    let ev = tcx.effective_visibilities(());
    for d in tcx.hir_crate_items(()).definitions() {
        let def = d.to_def_id();
        match tcx.def_kind(def) {
            DefKind::Impl { .. } => impls.push(impl_info(tcx, &mut types, def)),
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(def);
                let mut vs = vec![];
                for v in a.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = types.ty(t);
                        fs.push(J::O(vec![
                            ("name", J::s(f.name.to_string())),
                            ("t", t),
                            ("pub", J::B(f.vis.is_public())),
                        ]));
                    }
                    vs.push(J::O(vec![("name", J::s(v.name.to_string())), ("fields", J::A(fs))]));
                }
                let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let st = types.ty(st);
                adts.push(J::O(vec![
                    ("path", J::s(path(tcx, def))),
                    ("key", J::s(key(tcx, def))),
                    ("loc", loc(tcx, def)),
                    ("t", st),
                    ("repr", J::s(format!("{:?}", a.repr()))),
                    (
                        "variances",
                        J::A(
                            tcx.variances_of(def)
                                .iter()
                                .enumerate()
                                .map(|(i, v)| {
                                    let g = tcx.generics_of(def).param_at(i, tcx);
                                    J::A(vec![J::s(g.name.to_string()), J::s(format!("{v:?}"))])
                                })
                                .collect(),
                        ),
                    ),
                    ("copy", {
                        let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                        J::B(tcx.type_is_copy_modulo_regions(TypingEnv::post_analysis(tcx, def), t))
                    }),
                    ("pub", J::B(ev.is_reachable(d))),
                    ("variants", J::A(vs)),
                    ("has_drop", J::B(tcx.adt_destructor(def).is_some())),
                ]));
            }
            DefKind::Trait => traits.push(J::O(vec![
                ("path", J::s(path(tcx, def))),
                ("unsafe", J::B(tcx.trait_def(def).safety.is_unsafe())),
                ("pub", J::B(ev.is_reachable(d))),
                (
                    "items",
                    J::A(
                        tcx.associated_item_def_ids(def)
                            .iter()
                            .map(|d| J::s(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default()))
                            .collect(),
                    ),
                ),
            ])),
            _ => {}
        }
    }
    J::O(vec![
        ("fns", J::A(fns)),
        ("foreign", J::A(foreign)),
        ("externs", J::A(externs)),
        ("statics", J::A(statics)), ("consts", J::A(consts)),
        ("impls", J::A(impls)),
        ("adts", J::A(adts)),
        ("traits", J::A(traits)),
        ("types", J::A(std::mem::take(&mut types.out))),
    ])
    .to_file(out);
}

/// Bodies of every instance reachable from local non-generic functions named `root_*`
/// (or `#[no_mangle]`-style exported ones when VERIF_ROOTS=all).
pub fn dump_mono<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut types = Types::new(tcx);
    let mut work: Vec<Instance<'tcx>> = vec![];
    let mut seen: FxHashSet<Instance<'tcx>> = Default::default();
    let mut roots = vec![];
    let all = std::env::var("VERIF_ROOTS").map(|x| x == "all").unwrap_or(false);
    for d in tcx.mir_keys(()) {
        let def = d.to_def_id();
        if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        if tcx.generics_of(def).requires_monomorphization(tcx) {
            continue;
        }
        let name = tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default();
        if all || name.starts_with("root_") {
            let i = Instance::mono(tcx, def);
            roots.push(J::A(vec![J::s(path(tcx, def)), J::s(inst_key(tcx, i))]));
            work.push(i);
        }
    }
    let env = TypingEnv::fully_monomorphized();
    let stop: Vec<String> = std::env::var("VERIF_STOP")
        .unwrap_or_else(|_| "core::fmt,core::panicking,std::io,std::panicking,alloc::raw_vec,core::str,alloc::fmt".into())
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let mut fns = vec![];
    while let Some(i) = work.pop() {
        if !seen.insert(i) {
            continue;
        }
        let p = path(tcx, i.def_id());
        let mut o = vec![
            ("inst", J::s(inst_key(tcx, i))),
            ("path", J::s(p.clone())),
            ("key", J::s(key(tcx, i.def_id()))),
            ("kind", J::s(kind(&i))),
            ("name", J::s(tcx.opt_item_name(i.def_id()).map(|s| s.to_string()).unwrap_or_default())),
            ("loc", loc(tcx, i.def_id())),
        ];
        let a = types.args(i.args);
        o.push(("args", a));
        let k = kind(&i);
        let has = match i.def {
            ty::InstanceKind::Item(d) => {
                tcx.is_mir_available(d) && !tcx.is_foreign_item(d) && !stop.iter().any(|s| p.starts_with(s.as_str()))
            }
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..))
            | ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..))
            | ty::InstanceKind::Shim(ty::ShimKind::Reify(..)) => true,
            _ => false,
        };
        let _ = k;
        if has {
            let body = tcx.instance_mir(i.def);
            let body = i.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                ty::EarlyBinder::bind(tcx, body.clone()),
            );
            let mut found = vec![];
            let mut s =
                BodySer { tcx, types: &mut types, env, body: &body, found: Some(&mut found), called: None };
            let b = s.ser();
            o.push(("body", b));
            for f in found {
                work.push(f);
            }
        }
        fns.push(J::O(o));
    }
    J::O(vec![
        ("roots", J::A(roots)),
        ("fns", J::A(fns)),
        ("types", J::A(std::mem::take(&mut types.out))),
    ])
    .to_file(out);
}
