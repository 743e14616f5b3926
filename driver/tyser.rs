//! Types as a table of structural nodes.
use crate::json::J;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};

pub struct Types<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub map: FxHashMap<Ty<'tcx>, usize>,
    pub out: Vec<J>,
}
pub fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    // canonical, crate-qualified, independent of imports
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d))
    ))
}
pub fn tystr<'tcx>(t: impl std::fmt::Display) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(
        rustc_middle::ty::print::with_no_visible_paths!(t.to_string())
    ))
}
impl<'tcx> Types<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Types { tcx, map: Default::default(), out: vec![] }
    }
    pub fn konst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return J::I(v as i128);
        }
        J::S(tystr(c))
    }
    pub fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => {
                    let k = self.konst(c);
                    v.push(J::O(vec![("const", k)]))
                }
                GenericArgKind::Lifetime(_) => {}
                _ => {}
            }
        }
        J::A(v)
    }
    pub fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.map.get(&t) {
            return J::I(*i as i128);
        }
        let i = self.out.len();
        self.map.insert(t, i);
        self.out.push(J::N);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(tystr(t)))];
        match t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", J::s("adt")));
                o.push(("p", J::s(path(tcx, d.did()))));
                let a = self.args(a);
                o.push(("a", a));
                if d.is_box() {
                    o.push(("box", J::B(true)));
                }
                o.push((
                    "ak",
                    J::s(if d.is_enum() {
                        "enum"
                    } else if d.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", J::s("ref")));
                let x = self.ty(*x);
                o.push(("t", x));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(*x);
                o.push(("t", x));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.to_string())));
            }
            ty::FnDef(d, a) => {
                o.push(("k", J::s("fndef")));
                o.push(("p", J::s(path(tcx, *d))));
                let a = self.args(a.skip_binder());
                o.push(("a", a));
            }
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::s(path(tcx, *d))));
                let mut v = vec![];
                for u in a.as_closure().upvar_tys() {
                    v.push(self.ty(u));
                }
                o.push(("up", J::A(v)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Array(x, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(*x);
                let n = self.konst(*n);
                o.push(("t", x));
                o.push(("n", n));
            }
            ty::Slice(x) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(*x);
                o.push(("t", x));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Alias(_, a) => {
                o.push(("k", J::s("alias")));
                let _ = a;
            }
            ty::Never => o.push(("k", J::s("never"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                o.push(("k", J::s("prim")))
            }
            _ => o.push(("k", J::s("other"))),
        }
        self.out[i] = J::O(o);
        J::I(i as i128)
    }
}
