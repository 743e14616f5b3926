//! Trait facts about the types a witness crate names: `pub type Q_x = ...;`
use crate::json::J;
use crate::tyser::{path, tystr};
use rustc_hir::def::DefKind;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, TyCtxt, TypingEnv};
use rustc_trait_selection::infer::InferCtxtExt;

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let want: Vec<String> = std::env::var("VERIF_TRAITS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut traits = vec![];
    for t in tcx.all_traits_including_private() {
        let p = path(tcx, t);
        if let Some(w) = want.iter().find(|w| **w == p) {
            traits.push((w.clone(), t));
        }
    }
    // `pub type P_<k>_x = (Self, Arg);` asks for `Self: Trait_k<Arg>`
    let mut traits2 = vec![];
    for w in std::env::var("VERIF_TRAITS2").unwrap_or_default().split(',') {
        traits2.push(tcx.all_traits_including_private().find(|t| path(tcx, *t) == w));
    }
    let mut rows = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let def = d.to_def_id();
        if tcx.def_kind(def) != DefKind::TyAlias {
            continue;
        }
        let name = tcx.item_name(def).to_string();
        let pair = name.strip_prefix("P_").and_then(|n| n.split('_').next()).and_then(|n| n.parse::<usize>().ok());
        if !name.starts_with("Q_") && pair.is_none() {
            continue;
        }
        let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        let env = TypingEnv::fully_monomorphized();
        let t = tcx.erase_and_anonymize_regions(t);
        let norm = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t));
        let mut o = vec![("name", J::s(name))];
        match norm {
            Ok(t) if pair.is_some() => {
                let tr = traits2.get(pair.unwrap()).copied().flatten();
                if let (ty::Tuple(l), Some(tr)) = (t.kind(), tr) {
                    let mut n = 0;
                    let args = ty::GenericArgs::for_item(tcx, tr, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_static.into(),
                        _ => {
                            n += 1;
                            l[n - 1].into()
                        }
                    });
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                    let r = infcx.type_implements_trait(tr, args, pe);
                    let v = if r.must_apply_modulo_regions() { 1 } else if r.may_apply() { 2 } else { 0 };
                    o.push(("s", J::s(tystr(t))));
                    o.push(("holds", J::I(v)));
                } else {
                    o.push(("error", J::s("no such trait")));
                }
            }
            Ok(t) => {
                o.push(("s", J::s(tystr(t))));
                let mut im = vec![];
                for (n, tr) in &traits {
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
                    let r = infcx.type_implements_trait(*tr, [t], pe);
                    let v = if r.must_apply_modulo_regions() { 1 } else if r.may_apply() { 2 } else { 0 };
                    im.push(J::A(vec![J::s(n.clone()), J::I(v)]));
                }
                o.push(("traits", J::A(im)));
            }
            Err(_) => o.push(("error", J::s("does not normalise"))),
        }
        rows.push(J::O(o));
    }
    J::O(vec![("rows", J::A(rows)), ("found", J::A(traits.iter().map(|(n, _)| J::s(n.clone())).collect()))]).to_file(out);
}
