//! MIR body -> JSON
use crate::json::J;
use crate::tyser::{path, tystr, Types};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};

pub fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = tcx.def_path_debug_str(d);
    // crate[hash]::a::b -> crate::a::b
    match (s.find('['), s.find(']')) {
        (Some(a), Some(b)) if a < b => format!("{}{}", &s[..a], &s[b + 1..]),
        _ => s,
    }
}

pub struct BodySer<'a, 'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub types: &'a mut Types<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub body: &'a Body<'tcx>,
    /// instances found (mono mode)
    pub found: Option<&'a mut Vec<Instance<'tcx>>>,
    /// definitions called (generic mode)
    pub called: Option<&'a mut Vec<DefId>>,
}

impl<'a, 'tcx> BodySer<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.types.ty(t);
                    J::O(vec![("f", J::I(f.index() as i128)), ("t", t)])
                }
                ProjectionElem::Index(l) => J::O(vec![("idx", J::I(l.index() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![
                    ("cidx", J::I(offset as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::A(vec![J::I(from as i128), J::I(to as i128)])),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(_, v) => J::O(vec![("v", J::I(v.index() as i128))]),
                _ => J::O(vec![("other", J::s(format!("{e:?}")))]),
            });
        }
        J::O(vec![("l", J::I(p.local.index() as i128)), ("p", J::A(proj))])
    }
    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("p", J::s(path(tcx, d))), ("key", J::s(key(tcx, d)))];
        let a = self.types.args(args);
        o.push(("a", a));
        o.push(("name", J::s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(path(tcx, t))));
        }
        if !tcx.fn_sig(d).skip_binder().safety().is_safe() {
            o.push(("unsafe", J::B(true)));
        }
        if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate(tcx, args_prefix(tcx, i, args)).skip_norm_wip();
            let st = self.types.ty(st);
            o.push(("implty", st));
        }
        if let Some(c) = self.called.as_mut() {
            c.push(d);
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
            if let Some(c) = self.called.as_mut() {
                c.push(inst.def_id());
            }
            self.inst(inst, &mut o);
        }
        o
    }
    pub fn inst(&mut self, inst: Instance<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        o.push(("rp", J::s(path(tcx, d))));
        o.push(("rkey", J::s(key(tcx, d))));
        let a = self.types.args(inst.args);
        o.push(("ra", a));
        o.push(("rkind", J::s(kind(&inst))));
        if let Some(i) = tcx.impl_of_assoc(d) {
            o.push(("rimpl", J::s(key(tcx, i))));
            if let Some(t) = tcx.impl_opt_trait_id(i) {
                o.push(("rtrait", J::s(path(tcx, t))));
            }
        }
        if self.found.is_some() {
            o.push(("inst", J::s(inst_key(tcx, inst))));
            self.found.as_mut().unwrap().push(inst);
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.types.ty(t);
        let mut o = vec![("ty", tj)];
        if let ty::FnDef(d, a) = t.kind() {
            let f = self.fndef(*d, a.skip_binder());
            o.push(("fn", J::O(f)));
            return J::O(vec![("const", J::O(o))]);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                o.push(("def", J::s(path(tcx, u.def))));
                o.push(("defkey", J::s(key(tcx, u.def))));
                let a = self.types.args(u.args);
                o.push(("args", a));
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::I(p.index() as i128)));
                }
            }
            Const::Ty(_, c) => o.push(("param", J::s(tystr(c)))),
            _ => {}
        }
        if let Some(si) = c.const_.try_eval_scalar_int(tcx, self.env) {
            let sz = si.size();
            o.push(("bits", J::I(si.to_bits(sz) as i128)));
        } else if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
            if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                if let interpret::GlobalAlloc::Function { instance } =
                    tcx.global_alloc(p.provenance.alloc_id())
                {
                    let mut f = vec![];
                    self.inst(instance, &mut f);
                    o.push(("fnptr", J::O(f)));
                } else if let interpret::GlobalAlloc::Static(d) =
                    tcx.global_alloc(p.provenance.alloc_id())
                {
                    o.push(("static", J::s(path(tcx, d))));
                }
            }
            let inner = match t.kind() {
                ty::Ref(_, u, _) => *u,
                _ => t,
            };
            let bytes = match inner.kind() {
                ty::Slice(u) if *u == tcx.types.u8 => {
                    v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
                }
                ty::Array(u, n) if *u == tcx.types.u8 && t.is_ref() => {
                    match (v, n.try_to_target_usize(tcx)) {
                        (ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), Some(n)) => {
                            let (prov, off) = p.prov_and_relative_offset();
                            match tcx.global_alloc(prov.alloc_id()) {
                                interpret::GlobalAlloc::Memory(m) => {
                                    let off = off.bytes_usize();
                                    Some(
                                        m.inner()
                                            .inspect_with_uninit_and_ptr_outside_interpreter(
                                                off..off + n as usize,
                                            )
                                            .to_vec(),
                                    )
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some(b) = bytes {
                o.push(("bytes", J::s(format!("b\"{}\"", b.escape_ascii()))));
            }
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                }
            }
        }
        let mut text = tystr(c.const_);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let (Some(tr), None) = (tcx.trait_of_assoc(u.def), u.promoted) {
                if let Ok(a) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(u.args)) {
                    let a = tcx.erase_and_anonymize_regions(a);
                    let n = tcx.generics_of(tr).count();
                    if a.len() == n {
                        text = format!("{}::{}", tystr(ty::TraitRef::new_from_args(tcx, tr, a)), tcx.item_name(u.def));
                    }
                }
            }
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let mut inner = vec![];
                for b in tcx.promoted_mir(u.def)[p].basic_blocks.iter() {
                    for s in &b.statements {
                        if let StatementKind::Assign(a) = &s.kind {
                            if let Rvalue::Use(Operand::Constant(k), ..) = &a.1 {
                                inner.push(tystr(k.const_));
                            } else if !matches!(&a.1, Rvalue::Ref(..)) {
                                inner.clear();
                                inner.extend([String::new(), String::new()]);
                            }
                        }
                    }
                }
                if inner.len() == 1 && !inner[0].is_empty() {
                    text = format!("&{}", inner[0]);
                }
            }
        }
        o.push(("text", J::s(text)));
        J::O(vec![("const", J::O(o))])
    }
    fn op(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::O(vec![("copy", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::O(vec![("move", p)])
            }
            Operand::Constant(c) => self.konst(c),
            _ => J::O(vec![("rt", J::s(format!("{op:?}")))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match r {
            Rvalue::Use(x, _) => {
                let x = self.op(x);
                o.push(("k", J::s("use")));
                o.push(("x", x));
            }
            Rvalue::Repeat(x, n) => {
                let x = self.op(x);
                let n = self.types.konst(*n);
                o.push(("k", J::s("repeat")));
                o.push(("x", x));
                o.push(("n", n));
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(p);
                o.push(("k", J::s("ref")));
                o.push(("p", p));
                o.push(("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))));
            }
            Rvalue::RawPtr(m, p) => {
                let p = self.place(p);
                o.push(("k", J::s("raw")));
                o.push(("p", p));
                o.push(("mut", J::B(matches!(m, RawPtrKind::Mut))));
            }
            Rvalue::Cast(k, x, t) => {
                let x = self.op(x);
                let t2 = self.types.ty(*t);
                o.push(("k", J::s("cast")));
                o.push(("ck", J::s(format!("{k:?}"))));
                o.push(("x", x));
                o.push(("t", t2));
            }
            Rvalue::BinaryOp(b, xy) => {
                let x = self.op(&xy.0);
                let y = self.op(&xy.1);
                o.push(("k", J::s("bin")));
                o.push(("op", J::s(format!("{b:?}"))));
                o.push(("x", x));
                o.push(("y", y));
            }
            Rvalue::UnaryOp(u, x) => {
                let x = self.op(x);
                o.push(("k", J::s("un")));
                o.push(("op", J::s(format!("{u:?}"))));
                o.push(("x", x));
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let tj = self.types.ty(t);
                let p = self.place(p);
                o.push(("k", J::s("discr")));
                o.push(("p", p));
                o.push(("t", tj));
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        let v = d
                            .discriminants(self.tcx)
                            .map(|(i, x)| {
                                J::A(vec![
                                    J::I(i.index() as i128),
                                    J::s(x.val.to_string()),
                                    J::s(d.variant(i).name.to_string()),
                                ])
                            })
                            .collect();
                        o.push(("variants", J::A(v)));
                    }
                }
            }
            Rvalue::Aggregate(k, xs) => {
                let v: Vec<J> = xs.iter().map(|x| self.op(x)).collect();
                o.push(("k", J::s("agg")));
                o.push(("xs", J::A(v)));
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.types.ty(*t);
                        o.push(("ak", J::s("array")));
                        o.push(("t", t));
                    }
                    AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        o.push(("ak", J::s("adt")));
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.types.ty(t);
                        o.push(("t", t));
                        o.push(("v", J::I(v.index() as i128)));
                        o.push(("adt", J::s(path(self.tcx, *d))));
                        o.push((
                            "vname",
                            J::s(self.tcx.adt_def(*d).variant(*v).name.to_string()),
                        ));
                        if let Some(f) = fi {
                            o.push(("field", J::I(f.index() as i128)));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", J::s("closure")));
                        o.push(("key", J::s(key(self.tcx, *d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", J::s("rawptr"))),
                    _ => o.push(("ak", J::s("other"))),
                }
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                o.push(("k", J::s("use")));
                o.push(("x", J::O(vec![("copy", p)])));
            }
            Rvalue::ThreadLocalRef(_) => o.push(("k", J::s("tls"))),
            _ => {
                o.push(("k", J::s("other")));
                o.push(("text", J::s(format!("{r:?}"))));
            }
        }
        J::O(o)
    }
    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => J::s("continue"),
            UnwindAction::Unreachable => J::s("unreachable"),
            UnwindAction::Terminate(_) => J::s("terminate"),
            UnwindAction::Cleanup(b) => J::I(b.index() as i128),
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::I(target.index() as i128)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.op(discr);
                o.push(("k", J::s("switch")));
                o.push(("x", d));
                o.push((
                    "vals",
                    J::A(
                        targets
                            .iter()
                            .map(|(v, b)| {
                                J::A(vec![J::I(v as i128), J::I(b.index() as i128)])
                            })
                            .collect(),
                    ),
                ));
                o.push(("else", J::I(targets.otherwise().index() as i128)));
            }
            TerminatorKind::UnwindResume => o.push(("k", J::s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("k", J::s("abort"))),
            TerminatorKind::Return => o.push(("k", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&self.body.local_decls, self.tcx).ty;
                let tj = self.types.ty(ty);
                let p = self.place(place);
                o.push(("k", J::s("drop")));
                o.push(("p", p));
                o.push(("t", tj));
                o.push(("to", J::I(target.index() as i128)));
                o.push(("uw", Self::unwind(unwind)));
                if self.found.is_some() {
                    let inst = Instance::resolve_drop_glue(self.tcx, ty);
                    let mut f = vec![];
                    self.inst(inst, &mut f);
                    o.push(("glue", J::O(f)));
                }
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.op(func);
                let a = args.iter().map(|x| self.op(&x.node)).collect();
                let d = self.place(destination);
                let dt = destination.ty(&self.body.local_decls, self.tcx).ty;
                let dt = self.types.ty(dt);
                o.push(("k", J::s("call")));
                o.push(("f", f));
                o.push(("args", J::A(a)));
                o.push(("dst", d));
                o.push(("dt", dt));
                o.push(("to", J::opt(target.map(|b| J::I(b.index() as i128)))));
                o.push(("uw", Self::unwind(unwind)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.op(cond);
                o.push(("k", J::s("assert")));
                o.push(("x", c));
                o.push(("exp", J::B(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(..) => "overflow",
                    AssertKind::DivisionByZero(..) => "div0",
                    _ => "other",
                };
                o.push(("msg", J::s(m)));
                o.push(("to", J::I(target.index() as i128)));
                o.push(("uw", Self::unwind(unwind)));
            }
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", J::s("goto")));
                o.push(("to", J::I(real_target.index() as i128)));
            }
            k => {
                o.push(("k", J::s("other")));
                o.push(("text", J::s(format!("{k:?}"))));
            }
        }
        o.push(("ln", J::I(self.line(t.source_info.span))));
        J::O(o)
    }
    fn line(&self, sp: rustc_span::Span) -> i128 {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128
    }
    pub fn ser(&mut self) -> J {
        let body = self.body;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            locals.push(self.types.ty(d.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(J::A(vec![J::s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let t = pr.0.ty(&self.body.local_decls, self.tcx).ty;
                        let t = self.types.ty(t);
                        let r = self.rvalue(&pr.1);
                        let ln = self.line(s.source_info.span);
                        sts.push(J::O(vec![("k", J::s("=")), ("p", p), ("t", t), ("r", r), ("ln", J::I(ln))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        sts.push(J::O(vec![
                            ("k", J::s("setdiscr")),
                            ("p", p),
                            ("v", J::I(variant_index.index() as i128)),
                        ]));
                    }
                    StatementKind::StorageLive(l) => sts.push(J::O(vec![
                        ("k", J::s("live")),
                        ("l", J::I(l.index() as i128)),
                    ])),
                    StatementKind::StorageDead(l) => sts.push(J::O(vec![
                        ("k", J::s("dead")),
                        ("l", J::I(l.index() as i128)),
                    ])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(x) => {
                            let x = self.op(x);
                            sts.push(J::O(vec![("k", J::s("assume")), ("x", x)]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(&c.src);
                            let b = self.op(&c.dst);
                            let n = self.op(&c.count);
                            sts.push(J::O(vec![
                                ("k", J::s("cpynonov")),
                                ("src", a),
                                ("dst", b),
                                ("n", n),
                            ]));
                        }
                    },
                    _ => {}
                }
            }
            let t = self.term(b.terminator());
            blocks.push(J::O(vec![
                ("s", J::A(sts)),
                ("t", t),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", J::opt(body.spread_arg.map(|l| J::I(l.index() as i128)))),
        ])
    }
}
fn args_prefix<'tcx>(
    tcx: TyCtxt<'tcx>,
    parent: DefId,
    args: ty::GenericArgsRef<'tcx>,
) -> ty::GenericArgsRef<'tcx> {
    args.truncate_to(tcx, tcx.generics_of(parent))
}
pub fn kind(i: &Instance<'_>) -> String {
    match i.def {
        ty::InstanceKind::Item(_) => "item".into(),
        ty::InstanceKind::Intrinsic(_) => "intrinsic".into(),
        ty::InstanceKind::Virtual(..) => "virtual".into(),
        ty::InstanceKind::Shim(s) => {
            let s = format!("{s:?}");
            format!("shim:{}", s.split('(').next().unwrap_or(""))
        }
        _ => "other".into(),
    }
}
pub fn inst_key<'tcx>(tcx: TyCtxt<'tcx>, i: Instance<'tcx>) -> String {
    let mut s = format!("{}|{}", key(tcx, i.def_id()), kind(&i));
    for a in i.args.iter() {
        s.push('|');
        s.push_str(&tystr(a));
    }
    if let ty::InstanceKind::Shim(k) = i.def {
        if let Some(t) = shim_ty(k) {
            s.push_str("|shimty=");
            s.push_str(&tystr(t));
        }
    }
    s
}
fn shim_ty<'tcx>(k: ty::ShimKind<'tcx>) -> Option<Ty<'tcx>> {
    match k {
        ty::ShimKind::DropGlue(_, t) => t,
        ty::ShimKind::Clone(_, t) => Some(t),
        ty::ShimKind::FnPtr(_, t) => Some(t),
        _ => None,
    }
}
