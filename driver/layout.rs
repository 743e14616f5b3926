//! Type-level tables: what stable types claim vs what the compiler lays out, sum-type
//! determinants, type-level arithmetic, auto traits and compile-time constants.
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use crate::facts::preds;
use crate::json::J;
use crate::mirdump::{inst_key, key};
use crate::tyser::{path, tystr, Types};
use rustc_abi::{BackendRepr, FieldIdx, Primitive, Scalar, TagEncoding, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar as MScalar};
use rustc_middle::mir::ConstValue;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, GenericArg, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    lcx: LayoutCx<'tcx>,
    types: Types<'tcx>,
    sum: Option<DefId>,
    leaves: usize,
    provider: Option<DefId>,
    istable: Option<DefId>,
    /// Type reports, decoded once each: by allocation, by content, and the table itself.
    rep_alloc: FxHashMap<(rustc_middle::mir::interpret::AllocId, u64), usize>,
    rep_text: FxHashMap<String, usize>,
    reports: Vec<J>,
}

fn find_trait(tcx: TyCtxt<'_>, p: &str) -> Option<DefId> {
    tcx.all_traits_including_private().find(|t| path(tcx, *t) == p)
}
fn assoc(tcx: TyCtxt<'_>, t: DefId, name: &str) -> Option<DefId> {
    tcx.associated_item_def_ids(t)
        .iter()
        .copied()
        .find(|d| tcx.opt_item_name(*d).map(|n| n.as_str() == name).unwrap_or(false))
}

impl<'tcx> Cx<'tcx> {
    fn implements(&self, t: DefId, args: &[GenericArg<'tcx>]) -> bool {
        let infcx = self.tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
        infcx
            .type_implements_trait(t, args.iter().copied(), ty::ParamEnv::empty())
            .must_apply_modulo_regions()
    }
    fn proj(&self, item: DefId, args: &[GenericArg<'tcx>]) -> Option<Ty<'tcx>> {
        let t = Ty::new_projection(self.tcx, ty::IsRigid::No, item, args.iter().copied());
        self.tcx.try_normalize_erasing_regions(self.env, Unnormalized::new(t)).ok()
    }
    fn layout(&self, t: Ty<'tcx>) -> Option<TyAndLayout<'tcx>> {
        self.tcx.layout_of(self.env.as_query_input(t)).ok()
    }
    fn scalar(&self, s: &Scalar, off: u64) -> J {
        let tcx = self.tcx;
        let p = s.primitive();
        let sz = p.size(&tcx).bytes();
        let (lo, hi) = match s {
            Scalar::Initialized { valid_range, .. } => (valid_range.start, valid_range.end),
            Scalar::Union { .. } => {
                return J::O(vec![
                    ("k", J::s("any")),
                    ("off", J::I(off as i128)),
                    ("size", J::I(sz as i128)),
                ])
            }
        };
        J::O(vec![
            ("k", J::s("scalar")),
            ("off", J::I(off as i128)),
            ("size", J::I(sz as i128)),
            ("lo", J::s(lo.to_string())),
            ("hi", J::s(hi.to_string())),
            ("ptr", J::B(matches!(p, Primitive::Pointer(_)))),
        ])
    }
    /// Which bytes mean what, and which values they may take.
    fn walk(&mut self, l: TyAndLayout<'tcx>, off: u64, depth: usize) -> J {
        let tcx = self.tcx;
        self.leaves += 1;
        if depth > 40 || self.leaves > 600 {
            return J::O(vec![
                ("k", J::s("any")),
                ("trunc", J::B(true)),
                ("off", J::I(off as i128)),
                ("size", J::I(l.size.bytes() as i128)),
            ]);
        }
        if let ty::Adt(d, a) = l.ty.kind() {
            if Some(d.did()) == self.sum {
                let mut o = vec![
                    ("k", J::s("sum")),
                    ("off", J::I(off as i128)),
                    ("size", J::I(l.size.bytes() as i128)),
                    ("args", J::A(a.types().map(|t| J::s(tystr(t))).collect())),
                ];
                let tys: Vec<Ty<'tcx>> = a.types().collect();
                if let (Some(pr), [ok, err]) = (self.provider, &tys[..]) {
                    let num = |cx: &Self, tr: DefId, n: &str, args: &[GenericArg<'tcx>]| -> Option<u64> {
                        let t = cx.proj(assoc(tcx, tr, n)?, args)?;
                        numval(tcx, t).parse().ok()
                    };
                    let args: Vec<GenericArg<'tcx>> = vec![(*ok).into(), (*err).into()];
                    let det = assoc(tcx, pr, "Determinant").and_then(|d| self.proj(d, &args));
                    if let (Some(det), Some(ist)) = (det, self.istable) {
                        let ds = num(self, ist, "Size", &[det.into()]).unwrap_or(0);
                        let al = l.align.abi.bytes().max(1);
                        let ds = ds.div_ceil(al) * al;
                        let os = num(self, pr, "OkShift", &args);
                        let es = num(self, pr, "ErrShift", &args);
                        o.push(("det", tval(tcx, det)));
                        o.push(("det_size", J::I(ds as i128)));
                        for (n, t, sh) in [("ok", *ok, os), ("err", *err, es)] {
                            if let (Some(sh), Some(fl)) = (sh, self.layout(t)) {
                                let w = self.walk(fl, off + ds + sh, depth + 1);
                                o.push((n, w));
                            }
                        }
                    }
                }
                return J::O(o);
            }
            let p = path(tcx, d.did());
            // padding, spelled as a type: its byte is documented not to be used
            if p.ends_with("typenum2::unsigned::PadByte") {
                return J::O(vec![("k", J::s("struct")), ("fields", J::A(vec![]))]);
            }
            // the storage is a `u8`, its documented validity is `bool`'s
            if p == "core::sync::atomic::Atomic" && a.types().next().map(|t| t.is_bool()) == Some(true)
            {
                return J::O(vec![
                    ("k", J::s("cell")),
                    ("off", J::I(off as i128)),
                    ("size", J::I(1)),
                    (
                        "fields",
                        J::A(vec![J::O(vec![
                            ("k", J::s("scalar")),
                            ("off", J::I(off as i128)),
                            ("size", J::I(1)),
                            ("lo", J::s("0")),
                            ("hi", J::s("1")),
                            ("ptr", J::B(false)),
                        ])]),
                    ),
                ]);
            }
            if d.is_enum() && p == "stabby_abi::enums::BitDeterminant" {
                return J::O(vec![("k", J::s("bitdet")), ("off", J::I(off as i128))]);
            }
            if d.is_union() {
                let mut v = vec![];
                for i in 0..l.fields.count() {
                    let f = l.field(&self.lcx, i);
                    let o = l.fields.offset(i).bytes();
                    v.push(self.walk(f, off + o, depth + 1));
                }
                return J::O(vec![
                    ("k", J::s("union")),
                    ("off", J::I(off as i128)),
                    ("size", J::I(l.size.bytes() as i128)),
                    ("fields", J::A(v)),
                ]);
            }
            if d.is_enum() {
                match &l.variants {
                    Variants::Empty => {
                        return J::O(vec![("k", J::s("never"))]);
                    }
                    Variants::Single { index } => {
                        let mut v = vec![];
                        let vl = l.for_variant(&self.lcx, *index);
                        for i in 0..vl.fields.count() {
                            let o = vl.fields.offset(i).bytes();
                            let f = vl.field(&self.lcx, i);
                            v.push(self.walk(f, off + o, depth + 1));
                        }
                        return J::O(vec![("k", J::s("struct")), ("fields", J::A(v))]);
                    }
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = l.fields.offset(tag_field.index()).bytes();
                        let tsz = tag.primitive().size(&tcx).bytes();
                        let mut vs = vec![];
                        let idxs: Vec<VariantIdx> = variants.indices().collect();
                        for ix in idxs {
                            let vl = l.for_variant(&self.lcx, ix);
                            if vl.uninhabited {
                                continue;
                            }
                            let mut fs = vec![];
                            for i in 0..vl.fields.count() {
                                let o = vl.fields.offset(i).bytes();
                                let f = vl.field(&self.lcx, i);
                                fs.push(self.walk(f, off + o, depth + 1));
                            }
                            let tagv = match tag_encoding {
                                TagEncoding::Direct => {
                                    let dv = l.ty.discriminant_for_variant(tcx, ix).unwrap().val;
                                    let bits = tsz * 8;
                                    let m =
                                        if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                                    J::s((dv & m).to_string())
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if ix == *untagged_variant {
                                        J::N
                                    } else {
                                        let bits = tsz * 8;
                                        let m = if bits >= 128 {
                                            u128::MAX
                                        } else {
                                            (1u128 << bits) - 1
                                        };
                                        let rel = ix.as_u32() as u128
                                            - niche_variants.start.as_u32() as u128;
                                        J::s((niche_start.wrapping_add(rel) & m).to_string())
                                    }
                                }
                            };
                            vs.push(J::O(vec![
                                ("tag", tagv),
                                ("name", J::s(l.ty.ty_adt_def().unwrap().variant(ix).name.to_string())),
                                ("fields", J::A(fs)),
                            ]));
                        }
                        return J::O(vec![
                            ("k", J::s("enum")),
                            ("off", J::I((off + toff) as i128)),
                            ("size", J::I(tsz as i128)),
                            ("variants", J::A(vs)),
                        ]);
                    }
                }
            }
        }
        match l.ty.kind() {
            ty::Adt(..) | ty::Tuple(..) | ty::Closure(..) => {
                let mut v = vec![];
                for i in 0..l.fields.count() {
                    let o = l.fields.offset(i).bytes();
                    let f = l.field(&self.lcx, i);
                    v.push(self.walk(f, off + o, depth + 1));
                }
                // validity that only exists at this level (NonZero, NonNull, pattern types)
                if let BackendRepr::Scalar(s) = &l.backend_repr {
                    if let Scalar::Initialized { .. } = s {
                        let j = self.scalar(s, off);
                        v.push(j);
                    }
                }
                if let ty::Adt(d, _) = l.ty.kind() {
                    if d.is_unsafe_cell() {
                        return J::O(vec![
                            ("k", J::s("cell")),
                            ("off", J::I(off as i128)),
                            ("size", J::I(l.size.bytes() as i128)),
                            ("fields", J::A(v)),
                        ]);
                    }
                }
                J::O(vec![("k", J::s("struct")), ("fields", J::A(v))])
            }
            ty::Array(e, _) => {
                let n = l.fields.count();
                let el = self.layout(*e).unwrap();
                let mut v = vec![];
                for i in 0..n.min(64) {
                    v.push(self.walk(el, off + i as u64 * el.size.bytes(), depth + 1));
                }
                let mut o = vec![("k", J::s("struct")), ("fields", J::A(v))];
                if n > 64 {
                    o.push(("trunc", J::B(true)));
                    o.push(("off", J::I(off as i128)));
                    o.push(("size", J::I(l.size.bytes() as i128)));
                }
                J::O(o)
            }
            ty::Pat(..) => {
                let mut v = vec![];
                if let BackendRepr::Scalar(s) = &l.backend_repr {
                    v.push(self.scalar(s, off));
                }
                J::O(vec![("k", J::s("struct")), ("fields", J::A(v))])
            }
            _ => match &l.backend_repr {
                BackendRepr::Scalar(s) => self.scalar(s, off),
                BackendRepr::ScalarPair { a, b, b_offset } => {
                    let v = vec![self.scalar(a, off), self.scalar(b, off + b_offset.bytes())];
                    J::O(vec![("k", J::s("struct")), ("fields", J::A(v))])
                }
                _ => J::O(vec![
                    ("k", J::s("any")),
                    ("off", J::I(off as i128)),
                    ("size", J::I(l.size.bytes() as i128)),
                ]),
            },
        }
    }

    /// A reference to a constant: type reports go through the table.
    fn decode_ref(
        &mut self,
        id: rustc_middle::mir::interpret::AllocId,
        m: rustc_middle::mir::interpret::ConstAllocation<'tcx>,
        o: u64,
        il: TyAndLayout<'tcx>,
        depth: usize,
    ) -> J {
        if let ty::Adt(d, _) = il.ty.kind() {
            if path(self.tcx, d.did()) == "stabby_abi::report::TypeReport" {
                if let Some(i) = self.rep_alloc.get(&(id, o)) {
                    return J::O(vec![("report", J::I(*i as i128))]);
                }
                let j = self.decode(m, o, il, 0);
                let text = j.text();
                let i = match self.rep_text.get(&text) {
                    Some(i) => *i,
                    None => {
                        self.reports.push(j);
                        self.rep_text.insert(text, self.reports.len() - 1);
                        self.reports.len() - 1
                    }
                };
                self.rep_alloc.insert((id, o), i);
                return J::O(vec![("report", J::I(i as i128))]);
            }
        }
        self.decode(m, o, il, depth)
    }
    /// Decodes a constant value of type `l` stored in allocation `alloc` at `off`.
    fn decode(
        &mut self,
        alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>,
        off: u64,
        l: TyAndLayout<'tcx>,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        if depth > 400 {
            return J::s("<deep>");
        }
        let a = alloc.inner();
        let read = |o: u64, n: u64| -> Option<u128> {
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        let ptr_at = |o: u64| {
            a.provenance()
                .get_ptr(rustc_abi::Size::from_bytes(o))
                .map(|p| (p.alloc_id(), read(o, 8).unwrap() as u64))
        };
        match l.ty.kind() {
            ty::Adt(d, args) => {
                let p = path(tcx, d.did());
                // stabby str / StableLike are ordinary structs; follow fields
                if d.is_union() {
                    return J::s("<union>");
                }
                if d.is_enum() {
                    let vi = match &l.variants {
                        Variants::Single { index } => *index,
                        Variants::Empty => return J::s("<never>"),
                        Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let to = off + l.fields.offset(tag_field.index()).bytes();
                            let ts = tag.primitive().size(&tcx).bytes();
                            let has_ptr = ptr_at(to).is_some();
                            let v = read(to, ts).unwrap();
                            match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for (i, dv) in d.discriminants(tcx) {
                                        let m = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                        if dv.val & m == v {
                                            r = Some(i);
                                        }
                                    }
                                    match r {
                                        Some(i) => i,
                                        None => return J::s("<badtag>"),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let m = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & m;
                                    let cnt = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if !has_ptr && rel <= cnt {
                                        VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    };
                    let vl = l.for_variant(&self.lcx, vi);
                    let vd = d.variant(vi);
                    let mut fs = vec![];
                    for (i, f) in vd.fields.iter_enumerated() {
                        let fl = vl.field(&self.lcx, i.index());
                        let fo = vl.fields.offset(i.index()).bytes();
                        let x = self.decode(alloc, off + fo, fl, depth + 1);
                        fs.push(J::A(vec![J::s(f.name.to_string()), x]));
                    }
                    return J::O(vec![
                        ("enum", J::s(p)),
                        ("variant", J::s(vd.name.to_string())),
                        ("fields", J::A(fs)),
                    ]);
                }
                let vd = d.non_enum_variant();
                let _ = args;
                if p == "stabby_abi::str::Str" {
                    // &str in C layout: pointer, length
                    if let Some((id, o)) = ptr_at(off) {
                        let n = read(off + 8, 8).unwrap() as usize;
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(id) {
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                o as usize..o as usize + n,
                            );
                            return J::s(String::from_utf8_lossy(b).to_string());
                        }
                    }
                }
                let mut fs = vec![];
                for (i, f) in vd.fields.iter_enumerated() {
                    let i: FieldIdx = i;
                    let fl = l.field(&self.lcx, i.index());
                    let fo = l.fields.offset(i.index()).bytes();
                    let x = self.decode(alloc, off + fo, fl, depth + 1);
                    fs.push(J::A(vec![J::s(f.name.to_string()), x]));
                }
                J::O(vec![("struct", J::s(p)), ("fields", J::A(fs))])
            }
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => {
                let Some((id, o)) = ptr_at(off) else {
                    return J::O(vec![("addr", J::s(read(off, 8).unwrap_or(0).to_string()))]);
                };
                match tcx.global_alloc(id) {
                    GlobalAlloc::Memory(m) => {
                        if t.is_str() {
                            let n = read(off + 8, 8).unwrap() as usize;
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                o as usize..o as usize + n,
                            );
                            return J::s(String::from_utf8_lossy(b).to_string());
                        }
                        if let ty::Slice(e) = t.kind() {
                            let n = read(off + 8, 8).unwrap() as u64;
                            let el = self.layout(*e).unwrap();
                            let mut v = vec![];
                            for i in 0..n.min(256) {
                                v.push(self.decode(m, o + i * el.size.bytes(), el, depth + 1));
                            }
                            return J::A(v);
                        }
                        match self.layout(*t) {
                            Some(il) if il.is_sized() => self.decode_ref(id, m, o, il, depth + 1),
                            _ => J::s("<unsized>"),
                        }
                    }
                    GlobalAlloc::Function { instance } => {
                        J::O(vec![("fn", J::s(inst_key(tcx, instance)))])
                    }
                    GlobalAlloc::Static(d) => J::O(vec![("static", J::s(path(tcx, d)))]),
                    GlobalAlloc::VTable(t, _) => J::O(vec![("vtable", J::s(tystr(t)))]),
                    _ => J::s("<other>"),
                }
            }
            ty::FnPtr(..) => {
                let Some((id, _)) = ptr_at(off) else { return J::s("<noptr>") };
                match tcx.global_alloc(id) {
                    GlobalAlloc::Function { instance } => J::O(vec![
                        ("fn", J::s(inst_key(tcx, instance))),
                        ("name", J::s(tcx.opt_item_name(instance.def_id()).map(|n| n.to_string()).unwrap_or_default())),
                        ("self", {
                            let mut s = String::new();
                            if let Some(i) = tcx.impl_of_assoc(instance.def_id()) {
                                let st = tcx.type_of(i).instantiate(tcx, instance.args.truncate_to(tcx, tcx.generics_of(i))).skip_norm_wip();
                                s = tystr(st);
                            }
                            J::s(s)
                        }),
                        ("args", J::A(instance.args.iter().map(|a| J::s(tystr(a))).collect())),
                        ("path", J::s(path(tcx, instance.def_id()))),
                    ]),
                    _ => J::s("<nofn>"),
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let fl = l.field(&self.lcx, i);
                    let fo = l.fields.offset(i).bytes();
                    v.push(self.decode(alloc, off + fo, fl, depth + 1));
                }
                J::A(v)
            }
            ty::Array(e, _) => {
                let n = l.fields.count() as u64;
                let el = self.layout(*e).unwrap();
                let mut v = vec![];
                for i in 0..n.min(256) {
                    v.push(self.decode(alloc, off + i * el.size.bytes(), el, depth + 1));
                }
                J::A(v)
            }
            _ => J::s(read(off, l.size.bytes()).unwrap_or(0).to_string()),
        }
    }
    /// Evaluates an associated constant and decodes it.
    fn const_item(&mut self, item: DefId, args: &[GenericArg<'tcx>]) -> J {
        let tcx = self.tcx;
        let args = tcx.mk_args(args);
        let uv = rustc_middle::mir::UnevaluatedConst { def: item, args, promoted: None };
        let Ok(v) = tcx.const_eval_resolve(self.env, uv, rustc_span::DUMMY_SP) else {
            return J::s("<error>");
        };
        let t = tcx.type_of(item).instantiate(tcx, args);
        let Ok(t) = tcx.try_normalize_erasing_regions(self.env, t) else {
            return J::s("<ty error>");
        };
        let Some(l) = self.layout(t) else { return J::s("<layout error>") };
        match v {
            ConstValue::Scalar(MScalar::Int(i)) => J::s(i.to_bits(i.size()).to_string()),
            ConstValue::Scalar(MScalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let ty::Ref(_, inner, _) | ty::RawPtr(inner, _) = t.kind() {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                        if let Some(il) = self.layout(*inner) {
                            if il.is_sized() {
                                return self.decode_ref(prov.alloc_id(), m, off.bytes(), il, 0);
                            }
                        }
                    }
                }
                if let GlobalAlloc::Function { instance } = tcx.global_alloc(prov.alloc_id()) {
                    return J::O(vec![("fn", J::s(inst_key(tcx, instance)))]);
                }
                J::s("<ptr>")
            }
            ConstValue::ZeroSized => J::s("<zst>"),
            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(m) => self.decode(m, offset.bytes(), l, 0),
                _ => J::s("<?>"),
            },
            ConstValue::Slice { .. } => J::s("<slice>"),
        }
    }
}

/// Type-level values, decoded: numbers, niche counts, bit masks, forbidden patterns, determinants.
fn tval<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    let n = numval(tcx, t);
    if n.parse::<u128>().is_ok() || n == "b0" || n == "b1" {
        return J::s(n);
    }
    if let ty::Adt(d, a) = t.kind() {
        let p = path(tcx, d.did());
        let last = p.rsplit("::").next().unwrap_or("").to_string();
        let tys: Vec<Ty<'tcx>> = a.types().collect();
        let rec = |i: usize| tval(tcx, tys[i]);
        match (last.as_str(), tys.len()) {
            ("Array", 3) | ("Or", 2) | ("ForbiddenRange", 3) | ("ValueIsErr", 3) | ("BitIsErr", 2)
            | ("Not", 1) | ("NicheExporter", 3) => {
                let mut v = vec![J::s(last)];
                for i in 0..tys.len() {
                    v.push(rec(i));
                }
                return J::A(v);
            }
            ("End", 0) | ("Saturator", 0) | ("BitDeterminant", 0) => return J::s(last),
            _ => {}
        }
    }
    J::A(vec![J::s("?"), J::s(tystr(t))])
}

/// local type aliases / items of a module path suffix
fn module_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    path(tcx, tcx.parent(d))
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let env = TypingEnv::fully_monomorphized();
    let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let types = Types::new(tcx);
    let mut cx = Cx { tcx, env, lcx: LayoutCx::new(tcx, env), types, sum: None, leaves: 0, provider: None, istable: None, rep_alloc: Default::default(), rep_text: Default::default(), reports: vec![] };
    let istable = find_trait(tcx, "stabby_abi::istable::IStable").expect("anchor: IStable");
    let parts: Vec<String> = std::env::var("VERIF_PARTS")
        .unwrap_or_else(|_| "stable,pairs,nums,consts".into())
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let has = |p: &str| parts.iter().any(|x| x == p);

    // collect pools
    let mut pool: Vec<Ty<'tcx>> = vec![];
    let mut pool_num: Vec<Ty<'tcx>> = vec![];
    let mut pool_pair: Vec<Ty<'tcx>> = vec![];
    let mut insts: Vec<(String, Ty<'tcx>)> = vec![];
    let mut alias_all: Vec<(String, Ty<'tcx>)> = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let def = d.to_def_id();
        match tcx.def_kind(def) {
            DefKind::TyAlias => {
                if tcx.generics_of(def).count() != 0 {
                    continue;
                }
                let t = tcx.type_of(def).instantiate_identity();
                let Ok(t) = tcx.try_normalize_erasing_regions(env, t) else { continue };
                let m = module_of(tcx, def);
                let n = tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default();
                if m == format!("{crate_name}::pool") {
                    pool.push(t);
                } else if m == format!("{crate_name}::pool_big") {
                    pool.push(t);
                } else if m == format!("{crate_name}::tyeval_") {
                    alias_all.push((n, t));
                } else if m == format!("{crate_name}::pool_num") {
                    pool_num.push(t);
                } else if m == format!("{crate_name}::pool_pair") {
                    pool_pair.push(t);
                } else if m.starts_with(&format!("{crate_name}::")) {
                    insts.push((n, t));
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                if tcx.generics_of(def).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                insts.push((path(tcx, def), t));
            }
            _ => {}
        }
    }
    // the stabby Result ADT: recognised in layouts as a semantic node
    let provider = find_trait(tcx, "stabby_abi::enums::IDeterminantProvider");
    for i in tcx.all_impls(istable) {
        if let ty::Adt(d, _) = tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() {
            if path(tcx, d.did()) == "stabby_abi::result::Result" {
                cx.sum = Some(d.did());
            }
        }
    }
    cx.provider = provider;
    cx.istable = Some(istable);
    let claims = ["Size", "Align", "ForbiddenValues", "UnusedBits", "HasExactlyOneNiche", "ContainsIndirections"];
    let claim_ids: Vec<(&'static str, DefId)> =
        claims.iter().filter_map(|c| assoc(tcx, istable, c).map(|d| (*c, d))).collect();
    let mut entries: Vec<J> = vec![];
    let mut done: FxHashSet<Ty<'tcx>> = Default::default();
    let mut impls = vec![];
    let want_ids = has("ids");
    let want_reports = has("reports");
    let slim = has("slim");
    let oneat = has("oneat");
    let no_claims = has("noclaims");
    let want_decl = has("decl");
    let field_reports: std::cell::RefCell<FxHashMap<Ty<'tcx>, J>> = Default::default();
    let id_item = assoc(tcx, istable, "ID");
    let report_item = assoc(tcx, istable, "REPORT");

    let mut entry = |cx: &mut Cx<'tcx>, t: Ty<'tcx>, src: &str, name: &str, full: bool| -> bool {
        if done.contains(&t) {
            return true;
        }
        if !cx.implements(istable, &[t.into()]) {
            return false;
        }
        done.insert(t);
        let mut o = vec![("s", J::s(tystr(t))), ("impl", J::s(src)), ("name", J::s(name))];
        if let Some(l) = cx.layout(t).filter(|_| !no_claims) {
            o.push(("size", J::I(l.size.bytes() as i128)));
            o.push(("align", J::I(l.align.abi.bytes() as i128)));
            if let Some(n) = l.largest_niche {
                o.push(("niche", J::s(n.available(&tcx).to_string())));
                o.push(("niche_off", J::I(n.offset.bytes() as i128)));
            }
            cx.leaves = 0;
            let w = cx.walk(l, 0, 0);
            o.push(("tree", w));
            o.push(("uninhabited", J::B(l.uninhabited)));
            if let Some(od) = tcx.lang_items().option_type() {
                let ot = Ty::new_adt(tcx, tcx.adt_def(od), tcx.mk_args(&[t.into()]));
                if let Some(ol) = cx.layout(ot) {
                    o.push(("opt_size", J::I(ol.size.bytes() as i128)));
                }
            }
        }
        let mut cl = vec![];
        for (n, d) in claim_ids.iter().filter(|_| !no_claims) {
            let x = match cx.proj(*d, &[t.into()]) {
                Some(x) => tval(tcx, x),
                None => J::N,
            };
            cl.push((*n, x));
        }
        o.push(("claims", J::O(cl)));
        if want_reports {
            if let Some(i) = report_item {
                let v = cx.const_item(i, &[t.into()]);
                o.push(("report", v));
            }
        }
        if want_decl {
            if let (ty::Adt(d, args), Some(i)) = (t.kind(), report_item) {
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args);
                        let Ok(ft) = tcx.try_normalize_erasing_regions(env, ft) else { continue };
                        let known = field_reports.borrow().get(&ft).cloned();
                        let r = match known {
                            Some(r) => r,
                            None => {
                                let r = if cx.implements(istable, &[ft.into()]) { cx.const_item(i, &[ft.into()]) } else { J::N };
                                field_reports.borrow_mut().insert(ft, r.clone());
                                r
                            }
                        };
                        fs.push(J::A(vec![J::s(f.name.to_string()), J::s(tystr(ft)), r]));
                    }
                    vs.push(J::A(vec![J::s(v.name.to_string()), J::A(fs)]));
                }
                o.push((
                    "decl",
                    J::O(vec![
                        ("path", J::s(path(tcx, d.did()))),
                        ("kind", J::s(if d.is_union() { "union" } else if d.is_enum() { "enum" } else { "struct" })),
                        ("repr", J::s(format!("{}{:?}", if d.repr().c() { "C, " } else { "" }, d.repr().int))),
                        ("variants", J::A(vs)),
                    ]),
                ));
            }
        }
        if want_ids && full {
            if let Some(i) = id_item {
                let v = cx.const_item(i, &[t.into()]);
                o.push(("id", v));
            }
        }
        entries.push(J::O(o));
        true
    };

    if has("stable") {
        for (n, t) in &insts {
            entry(&mut cx, *t, "user", n, true);
        }
        for t in pool.clone() {
            entry(&mut cx, t, "pool", "", true);
        }
        for i in tcx.all_impls(istable) {
            let t0 = std::time::Instant::now();
            let g = tcx.generics_of(i);
            let st = tcx.type_of(i);
            let mut kinds = vec![]; // 0 lifetime 1 type 2 const
            collect_params(tcx, g, &mut kinds);
            let nt = kinds.iter().filter(|k| **k == 1).count();
            let nc = kinds.iter().filter(|k| **k == 2).count();
            let mut all: Vec<Ty<'tcx>> = pool.clone();
            all.extend(pool_num.iter().copied());
            if slim {
                all = pool_pair.clone();
                all.extend(pool_num.iter().take(4).copied());
            }
            let mut combos: Vec<Vec<Ty<'tcx>>> = vec![];
            match nt {
                _ if oneat => {
                    // one argument varied at a time around a few uniform choices
                    all = pool.clone();
                    all.extend(pool_num.iter().copied());
                    match nt {
                        0 => combos.push(vec![]),
                        1 => combos.extend(all.iter().map(|t| vec![*t])),
                        2 => {
                            for a in &all {
                                for b in all.iter().take(3) {
                                    combos.push(vec![*a, *b]);
                                    combos.push(vec![*b, *a]);
                                }
                            }
                        }
                        3 => {
                            for a in all.iter().take(3) {
                                for b in all.iter().take(3) {
                                    for c in &all {
                                        combos.push(vec![*a, *b, *c]);
                                    }
                                }
                            }
                        }
                        n => {
                            combos.push(vec![pool[0]; n]);
                            for k in 0..n {
                                if n > 5 && ![0, n / 2, n - 1].contains(&k) {
                                    continue;
                                }
                                let mut c = vec![pool[0]; n];
                                c[k] = pool[1];
                                combos.push(c);
                            }
                        }
                    }
                }
                0 => combos.push(vec![]),
                1 => {
                    for t in &all {
                        combos.push(vec![*t]);
                    }
                }
                2 if slim => {
                    for (i, a) in all.iter().enumerate() {
                        for k in [0usize, 3, 7] {
                            combos.push(vec![*a, all[(i + k) % all.len()]]);
                        }
                    }
                }
                2 => {
                    for a in &pool_pair {
                        for b in &pool_pair {
                            combos.push(vec![*a, *b]);
                        }
                    }
                    for (i, a) in all.iter().enumerate() {
                        for k in [0usize, 7, 13] {
                            combos.push(vec![*a, all[(i + k) % all.len()]]);
                        }
                    }
                    for a in &pool_num {
                        for b in &pool_num {
                            combos.push(vec![*a, *b]);
                        }
                        for b in pool_pair.iter().take(6) {
                            combos.push(vec![*a, *b]);
                            combos.push(vec![*b, *a]);
                        }
                    }
                }
                n => {
                    for r in 0..(if slim { 3 } else { 14 }) {
                        combos.push((0..n).map(|k| all[(r * 5 + k * 3 + (k * k) % 7) % all.len()]).collect());
                        combos.push((0..n).map(|k| pool[(r + k) % pool.len()]).collect());
                    }
                }
            }
            let mut ok = 0usize;
            let ctys: Vec<Ty<'tcx>> = {
                let mut v = vec![];
                const_param_types(tcx, g, &mut v);
                v
            };
            let consts: Vec<usize> = if nc > 0 { vec![0, 1, 2, 3, 4] } else { vec![0] };
            for c in &combos {
                for cv in &consts {
                    let (mut ti, mut ci) = (0, 0);
                    let mut ga: Vec<GenericArg<'tcx>> = vec![];
                    for k in &kinds {
                        match k {
                            0 => ga.push(tcx.lifetimes.re_erased.into()),
                            1 => {
                                ga.push(c[ti].into());
                                ti += 1;
                            }
                            _ => {
                                let t = ctys[ci];
                                ci += 1;
                                let bits = cx.layout(t).map(|l| l.size.bits()).unwrap_or(64);
                                let max = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                                let v: u128 = if t.is_bool() {
                                    *cv as u128 % 2
                                } else if t.is_usize() {
                                    [0u128, 1, 2, 3, 5][*cv]
                                } else {
                                    [0u128, 1, 5, max, max / 2 + 1][*cv]
                                };
                                ga.push(ty::Const::from_bits(tcx, v, env, t).into());
                            }
                        }
                    }
                    let args = tcx.mk_args(&ga);
                    let imp = tcx.instantiate_and_check_impossible_clauses((i, args));
                    if imp {
                        continue;
                    }
                    let t = st.instantiate(tcx, args);
                    let Ok(t) = tcx.try_normalize_erasing_regions(env, t) else { continue };
                    if entry(&mut cx, t, &key(tcx, i), "", ok < 1 && (!oneat || nt < 6)) {
                        ok += 1;
                    }
                }
            }
            if let Ok(p) = std::env::var("VERIF_TRACE") {
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
                let _ = writeln!(f, "TRACE {:?} {} {}", t0.elapsed(), combos.len(), tystr(st.instantiate_identity().skip_norm_wip()));
            }
            impls.push(J::O(vec![
                ("key", J::s(key(tcx, i))),
                ("self", J::s(tystr(st.instantiate_identity().skip_norm_wip()))),
                ("n", J::I(ok as i128)),
                ("preds", preds(tcx, i)),
                ("local", J::B(i.is_local())),
                ("expn", J::s(format!("{:?}", tcx.def_span(i).ctxt().outer_expn_data().kind))),
            ]));
        }
    }

    let mut pairs = vec![];
    if has("pairs") {
        let provider = provider.expect("anchor: IDeterminantProvider");
        let items: Vec<(&'static str, DefId)> = ["OkShift", "ErrShift", "Determinant", "NicheExporter"]
            .iter()
            .filter_map(|n| assoc(tcx, provider, n).map(|d| (*n, d)))
            .collect();
        let mut all = pool.clone();
        for (_, t) in &insts {
            if cx.implements(istable, &[(*t).into()]) && !all.contains(t) {
                all.push(*t);
            }
        }
        for t in &all {
            entry(&mut cx, *t, "pair", "", true);
        }
        let sum = cx.sum.expect("anchor: Result");
        let det_trait = find_trait(tcx, "stabby_abi::enums::IDeterminant");
        for a in &all {
            for b in &all {
                if !cx.implements(provider, &[(*a).into(), (*b).into()]) {
                    continue;
                }
                let mut o = vec![("ok", J::s(tystr(*a))), ("err", J::s(tystr(*b)))];
                for (n, d) in &items {
                    let x = match cx.proj(*d, &[(*a).into(), (*b).into()]) {
                        Some(x) => {
                            if *n == "Determinant" {
                                if let Some(sz) = assoc(tcx, istable, "Size") {
                                    let s = cx.proj(sz, &[x.into()]).map(|t| tval(tcx, t));
                                    o.push(("det_size", J::opt(s)));
                                }
                                if let Some(dt) = det_trait.and_then(|d| assoc(tcx, d, "IsNicheTrick")) {
                                    let s = cx.proj(dt, &[x.into()]).map(|t| tval(tcx, t));
                                    o.push(("niche_trick", J::opt(s)));
                                }
                            }
                            if *n == "NicheExporter" {
                                for c in ["ForbiddenValues", "UnusedBits"] {
                                    if let Some(it) = assoc(tcx, istable, c) {
                                        let s = cx.proj(it, &[x.into()]).map(|t| tval(tcx, t));
                                        o.push((if c == "UnusedBits" { "exp_ub" } else { "exp_fv" }, J::opt(s)));
                                    }
                                }
                            }
                            tval(tcx, x)
                        }
                        None => J::N,
                    };
                    o.push((n, x));
                }
                let rt = Ty::new_adt(tcx, tcx.adt_def(sum), tcx.mk_args(&[(*a).into(), (*b).into()]));
                o.push(("res", J::s(tystr(rt))));
                if let Some(l) = cx.layout(rt) {
                    o.push(("size", J::I(l.size.bytes() as i128)));
                    o.push(("align", J::I(l.align.abi.bytes() as i128)));
                }
                for (n, d) in &claim_ids {
                    if let Some(x) = cx.proj(*d, &[rt.into()]) {
                        let j = tval(tcx, x);
                        o.push((match *n { "Size" => "c_size", "Align" => "c_align", "UnusedBits" => "c_ub", "ForbiddenValues" => "c_fv", _ => continue }, j));
                    }
                }
                // inherent offsets the code really uses
                for im in tcx.inherent_impls(sum) {
                    for it in tcx.associated_item_def_ids(*im) {
                        let n = tcx.opt_item_name(*it).map(|n| n.to_string()).unwrap_or_default();
                        if matches!(tcx.def_kind(*it), DefKind::AssocConst { .. }) {
                            let args = tcx.mk_args(&[(*a).into(), (*b).into()]);
                            let v = cx.const_item(*it, args);
                            match n.as_str() {
                                "OK_OFFSET" => o.push(("ok_off", v)),
                                "ERR_OFFSET" => o.push(("err_off", v)),
                                "DET_SIZE" => o.push(("det_off", v)),
                                _ => {}
                            }
                        }
                    }
                }
                pairs.push(J::O(o));
            }
        }
    }

    let mut nums = vec![];
    let mut numc = vec![];
    if has("nums") {
        let adt = |p: &str| -> Option<DefId> {
            // find by scanning impls of IUnsignedBase / IBitBase
            for tr in ["stabby_abi::typenum2::unsigned::IUnsignedBase", "stabby_abi::typenum2::unsigned::IBitBase"] {
                if let Some(t) = find_trait(tcx, tr) {
                    for i in tcx.all_impls(t) {
                        if let ty::Adt(d, _) = tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() {
                            if path(tcx, d.did()).ends_with(&format!("::{p}")) {
                                return Some(d.did());
                            }
                        }
                    }
                }
            }
            None
        };
        let (ut, ui, b0, b1) = (
            adt("UTerm").expect("anchor UTerm"),
            adt("UInt").expect("anchor UInt"),
            adt("B0").expect("anchor B0"),
            adt("B1").expect("anchor B1"),
        );
        let mk = |d: DefId, a: &[GenericArg<'tcx>]| Ty::new_adt(tcx, tcx.adt_def(d), tcx.mk_args(a));
        let (tb0, tb1) = (mk(b0, &[]), mk(b1, &[]));
        let num = |n: u128| -> Ty<'tcx> {
            let mut t = mk(ut, &[]);
            for i in (0..128 - n.leading_zeros()).rev() {
                let bit = if (n >> i) & 1 == 1 { tb1 } else { tb0 };
                t = mk(ui, &[t.into(), bit.into()]);
            }
            t
        };
        let deep = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
        let mut grid: Vec<u128> = (0..if deep { 80 } else { 34 }).collect();
        grid.extend([63, 64, 65, 100, 127, 128, 129, 240, 255, 256, 257, 511, 512, 1000, 4095, 4096, 65535, 65536, (1 << 31) - 1, 1 << 32, (1u128 << 63) - 1, 1u128 << 63]);
        grid.sort();
        grid.dedup();
        let gt: Vec<(u128, Ty<'tcx>)> = grid.iter().map(|n| (*n, num(*n))).collect();
        for tn in ["IUnsigned", "IUnsignedBase", "NonZero", "IPowerOf2", "IBit", "IBitBase", "Alignment"] {
            let tp = format!("stabby_abi::typenum2::unsigned::{tn}");
            let Some(tr) = find_trait(tcx, &tp) else { continue };
            let selfs: Vec<(String, Ty<'tcx>)> = if tn.starts_with("IBit") {
                vec![("0".into(), tb0), ("1".into(), tb1)]
            } else {
                gt.iter().map(|(n, t)| (n.to_string(), *t)).collect()
            };
            for (sn, st) in &selfs {
                if !cx.implements(tr, &[(*st).into()]) {
                    continue;
                }
                for it in tcx.associated_item_def_ids(tr) {
                    let name = tcx.opt_item_name(*it).map(|n| n.to_string()).unwrap_or_default();
                    match tcx.def_kind(*it) {
                        DefKind::AssocTy => {
                            if name.starts_with('_') {
                                continue;
                            }
                            let own = tcx.generics_of(*it).own_params.len();
                            let mut argsets: Vec<(String, Vec<Ty<'tcx>>)> = vec![];
                            let bits = [("b0".to_string(), tb0), ("b1".to_string(), tb1)];
                            match own {
                                0 => argsets.push(("".into(), vec![])),
                                1 => {
                                    for (n, t) in &gt {
                                        argsets.push((n.to_string(), vec![*t]));
                                    }
                                    for (n, t) in &bits {
                                        argsets.push((n.clone(), vec![*t]));
                                    }
                                    if name == "Array" {
                                        argsets.clear();
                                        for t in &pool_pair {
                                            let l = cx.layout(*t).map(|l| format!("{} {}", l.size.bytes(), l.align.abi.bytes()));
                                            argsets.push((l.unwrap_or_default(), vec![*t]));
                                        }
                                    }
                                }
                                2 => {
                                    argsets.push(("2,8".into(), vec![num(2), num(8)]));
                                    argsets.push(("8,2".into(), vec![num(8), num(2)]));
                                    for (n, t) in &bits {
                                        for (m, u) in &bits {
                                            argsets.push((format!("{n},{m}"), vec![*t, *u]));
                                        }
                                    }
                                }
                                _ => {}
                            }
                            let sv: u128 = sn.parse().unwrap_or(0);
                            if sv > 600 && ["Padding", "PaddingBitMask", "Array"].contains(&name.as_str()) {
                                continue;
                            }
                            for (an, a) in argsets {
                                // products grow a type per bit of each factor
                                if name == "Mul" && (sv > 40 || an.parse::<u128>().unwrap_or(0) > 40) {
                                    continue;
                                }
                                let mut ga: Vec<GenericArg<'tcx>> = vec![(*st).into()];
                                ga.extend(a.iter().map(|t| GenericArg::from(*t)));
                                let ok = !tcx.instantiate_and_check_impossible_clauses((*it, tcx.mk_args(&ga)));
                                if !ok {
                                    if own > 0 && !an.is_empty() {
                                        nums.push(J::A(vec![J::s(tn), J::s(name.clone()), J::s(sn.clone()), J::s(an), J::s("rejected")]));
                                    }
                                    continue;
                                }
                                let r = match cx.proj(*it, &ga) {
                                    Some(t) if ["Padding", "Array", "AsUint"].contains(&name.as_str()) => match cx.layout(t) {
                                        Some(l) => format!("layout {} {}", l.size.bytes(), l.align.abi.bytes()),
                                        None => "error".into(),
                                    },
                                    Some(t) if name == "PaddingBitMask" => { let mut o = String::new(); tval(tcx, t).write(&mut o); o },
                                    Some(t) => numval(tcx, t),
                                    None => "error".into(),
                                };
                                nums.push(J::A(vec![J::s(tn), J::s(name.clone()), J::s(sn.clone()), J::s(an), J::s(r)]));
                            }
                        }
                        DefKind::AssocConst { .. } => {
                            let v = cx.const_item(*it, &[(*st).into()]);
                            numc.push(J::A(vec![J::s(tn), J::s(name), J::s(sn.clone()), v]));
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    // free constants and statics of the witness crate
    let mut consts = vec![];
    if has("consts") {
        for d in tcx.hir_crate_items(()).definitions() {
            let def = d.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                continue;
            }
            if tcx.generics_of(def).count() != 0 {
                continue;
            }
            let p = path(tcx, def);
            if !p.contains("::consts::") {
                continue;
            }
            let v = cx.const_item(def, &[]);
            consts.push(J::A(vec![J::s(p), v]));
        }
    }
    // named numeric aliases/structs generated by build.rs
    let mut named = vec![];
    if has("named") {
        for (n, t) in &alias_all {
            named.push(J::A(vec![J::s(n.clone()), J::s(numval(tcx, *t))]));
        }
    }
    if has("named") {
        for c in tcx.crates(()).iter() {
            if tcx.crate_name(*c).as_str() != "stabby_abi" {
                continue;
            }
            let mut stack = vec![c.as_def_id()];
            while let Some(m) = stack.pop() {
                for ch in tcx.module_children(m) {
                    if let rustc_hir::def::Res::Def(k, d) = ch.res {
                        if d.krate != *c {
                            continue;
                        }
                        if k == DefKind::Mod && !path(tcx, d).contains("seal") && tcx.opt_parent(d) == Some(m) {
                            stack.push(d);
                        }
                        if k == DefKind::TyAlias && tcx.generics_of(d).count() == 0 {
                            let t = tcx.type_of(d).instantiate_identity();
                            if let Ok(t) = tcx.try_normalize_erasing_regions(env, t) {
                                let s = numval(tcx, t);
                                if s.parse::<u128>().is_ok() {
                                    named.push(J::A(vec![J::s(ch.ident.name.to_string()), J::s(s)]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    J::O(vec![
        ("reports", J::A(std::mem::take(&mut cx.reports))),
        ("entries", J::A(entries)),
        ("impls", J::A(impls)),
        ("pairs", J::A(pairs)),
        ("nums", J::A(nums)),
        ("numc", J::A(numc)),
        ("consts", J::A(consts)),
        ("named", J::A(named)),
        ("types", J::A(std::mem::take(&mut cx.types.out))),
    ])
    .to_file(out);
}
fn const_param_types<'tcx>(tcx: TyCtxt<'tcx>, g: &'tcx ty::Generics, out: &mut Vec<Ty<'tcx>>) {
    if let Some(p) = g.parent {
        const_param_types(tcx, tcx.generics_of(p), out);
    }
    for p in &g.own_params {
        if let ty::GenericParamDefKind::Const { .. } = p.kind {
            out.push(tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip());
        }
    }
}
fn collect_params(tcx: TyCtxt<'_>, g: &ty::Generics, out: &mut Vec<u8>) {
    if let Some(p) = g.parent {
        collect_params(tcx, tcx.generics_of(p), out);
    }
    for p in &g.own_params {
        out.push(match p.kind {
            ty::GenericParamDefKind::Lifetime => 0,
            ty::GenericParamDefKind::Type { .. } => 1,
            ty::GenericParamDefKind::Const { .. } => 2,
        });
    }
}
pub fn numval<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    fn rec<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<u128> {
        if let ty::Adt(d, a) = t.kind() {
            let p = path(tcx, d.did());
            let last = p.rsplit("::").next().unwrap_or("");
            return match last {
                "UTerm" => Some(0),
                "UInt" => {
                    let m = rec(tcx, a.type_at(0))?;
                    let b = match a.type_at(1).kind() {
                        ty::Adt(d, _) => match path(tcx, d.did()).rsplit("::").next() {
                            Some("B0") => 0,
                            Some("B1") => 1,
                            _ => return None,
                        },
                        _ => return None,
                    };
                    if m == 0 && b == 0 {
                        return None; // leading zero: not the canonical form other operations expect
                    }
                    m.checked_mul(2)?.checked_add(b)
                }
                _ => None,
            };
        }
        None
    }
    if let Some(n) = rec(tcx, t) {
        return n.to_string();
    }
    let s = tystr(t);
    match s.rsplit("::").next() {
        Some("B0") => "b0".into(),
        Some("B1") => "b1".into(),
        _ => s,
    }
}
