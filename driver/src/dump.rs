use crate::json::{s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
}

pub fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn dpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn tstr(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), J::I(lo.line as i128)])
    }

    fn note_adt(&mut self, t: Ty<'tcx>) {
        let mut t = t;
        while let ty::Ref(_, u, _) = t.kind() {
            t = *u;
        }
        if let ty::Adt(def, args) = t.kind() {
            let key = dpath(self.tcx, def.did());
            if self.adts.contains_key(&key) {
                return;
            }
            self.adts.insert(key.clone(), J::N);
            let tcx = self.tcx;
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let fs: Vec<J> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let ft = tstr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                        J::A(vec![s(f.name.to_string()), s(ft), J::B(f.vis.is_public())])
                    })
                    .collect();
                let d = if def.is_enum() {
                    let dv = def.discriminant_for_variant(tcx, vi);
                    J::I(dv.val as i128)
                } else {
                    J::I(0)
                };
                vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", d), ("fields", J::A(fs))]));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let hasdrop = def.destructor(tcx).map(|d| s(did(tcx, d.did))).unwrap_or(J::N);
            self.adts.insert(
                key,
                J::O(vec![("kind", s(kind)), ("id", s(did(tcx, def.did()))), ("variants", J::A(vs)), ("drop", hasdrop)]),
            );
            for a in args.iter() {
                if let Some(u) = a.as_type() {
                    self.note_adt(u);
                }
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        self.note_adt(t);
        s(tstr(t))
    }

    fn fndef(&mut self, body: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, body.source.def_id());
        let mut res = J::N;
        let mut virt = false;
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, tcx.erase_and_anonymize_regions(args)) {
            if let ty::InstanceKind::Virtual(..) = inst.def {
                virt = true;
            }
            if inst.def_id() != d {
                res = J::O(vec![("id", s(did(tcx, inst.def_id()))), ("path", s(dpath(tcx, inst.def_id())))]);
            }
        }
        let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| {
            // closures: give the closure id
            if let ty::Closure(cd, _) = t.kind() {
                J::O(vec![("closure", s(did(tcx, *cd)))])
            } else if let ty::FnDef(fd, fa) = t.kind() {
                J::O(vec![("fn", s(did(tcx, *fd))), ("path", s(dpath(tcx, *fd))), ("x", s(format!("{:?}", fa)))])
            } else {
                self.note_adt(t);
                s(tstr(t))
            }
        }).collect();
        let tr = tcx.trait_of_assoc(d).map(|t| s(dpath(tcx, t))).unwrap_or(J::N);
        let recv_ctor = match tcx.def_kind(d) { DefKind::Ctor(..) => {
            let par = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(par) { DefKind::Variant => (tcx.parent(par), tcx.item_name(par).to_string()), _ => (par, String::new()) };
            J::A(vec![s(dpath(tcx, adt)), s(var)])
        }, _ => J::N };
        let is_unsafe = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        J::O(vec![
            ("id", s(did(tcx, d))),
            ("path", s(dpath(tcx, d))),
            ("targs", J::A(targs)),
            ("res", res),
            ("virt", J::B(virt)),
            ("trait", tr),
            ("ctor", recv_ctor),
            ("unsafe", J::B(is_unsafe)),
        ])
    }

    fn cnst(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fndef(body, *d, args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d)));
                o.push(("fn", f));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}#{}", did(tcx, u.def), p.as_usize()))));
            } else {
                o.push(("path", s(dpath(tcx, u.def))));
                o.push(("cid", s(did(tcx, u.def))));
            }
        }
        let te = TypingEnv::post_analysis(tcx, body.source.def_id());
        if let Ok(v) = c.const_.eval(tcx, te, c.span) {
            self.cval(&mut o, v, t);
        }
        J::O(o)
    }

    fn cval(&mut self, o: &mut Vec<(&'static str, J)>, v: ConstValue, t: Ty<'tcx>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(sc) => {
                if let Ok(i) = sc.try_to_scalar_int() {
                    let bits = i.to_bits(i.size());
                    match t.kind() {
                        ty::Bool => o.push(("bool", J::B(bits != 0))),
                        ty::Int(_) => o.push(("int", J::I(i.size().sign_extend(bits)))),
                        ty::Float(fk) => {
                            let f = match fk.bit_width() {
                                64 => f64::from_bits(bits as u64),
                                _ => f32::from_bits(bits as u32) as f64,
                            };
                            o.push(("float", s(format!("{:?}", f))));
                        }
                        ty::Char => o.push(("char", J::I(bits as i128))),
                        _ => o.push(("int", J::I(bits as i128))),
                    }
                } else if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                    let (prov, off) = p.into_raw_parts();
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                        let m = m.inner();
                        let len = m.len();
                        let start = off.bytes_usize().min(len);
                        let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(start..len);
                        if m.provenance().ptrs().is_empty() && len - start <= 65536 {
                            o.push(("bytes", J::A(bytes.iter().map(|b| J::I(*b as i128)).collect())));
                        }
                    }
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match std::str::from_utf8(b) {
                        Ok(x) if tstr(t).contains("str") => o.push(("str", s(x))),
                        _ => o.push(("bytes", J::A(b.iter().map(|b| J::I(*b as i128)).collect()))),
                    }
                }
            }
            ConstValue::Indirect { .. } => o.push(("indirect", J::B(true))),
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, tcx);
            let j = match e {
                ProjectionElem::Deref => {
                    let mut v = vec![s("*")];
                    if bt.ty.is_box() { v.push(s("box")); }
                    J::A(v)
                }
                ProjectionElem::Field(f, _) => {
                    let nm = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        ty::Closure(..) => format!("^{}", f.as_usize()),
                        _ => f.as_usize().to_string(),
                    };
                    self.note_adt(bt.ty);
                    J::A(vec![s("f"), s(nm), J::I(f.as_usize() as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(n, v) => {
                    self.note_adt(bt.ty);
                    let nm = n.map(|x| x.to_string()).unwrap_or_else(|| match bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    });
                    J::A(vec![s("d"), s(nm)])
                }
                _ => J::A(vec![s("?")]),
            };
            pr.push(j);
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.cnst(body, c)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("ty", s("bool")), ("bool", J::B(false))])]),
        }
    }

    fn rv(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(body, o), s(format!("{:?}", n))]),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" };
                J::A(vec![s("ref"), s(k), self.place(body, p)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(body, p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, tcx);
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc),
                    k => format!("{:?}", k),
                };
                let (f, t2) = (self.ty(ft), self.ty(*t));
                J::A(vec![s("cast"), s(ks), self.op(body, o), f, t2])
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(body, &ab.0), self.op(body, &ab.1), s(tstr(t))])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(body, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![s("discr"), self.place(body, p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let t = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                        self.note_adt(t);
                        let var = def.variant(*v);
                        J::A(vec![
                            s("adt"),
                            s(dpath(tcx, *d)),
                            s(var.name.to_string()),
                            J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect()),
                            J::B(def.is_enum()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(did(tcx, *d))]),
                    _ => J::A(vec![s("other")]),
                };
                let v: Vec<J> = ops.iter().map(|o| self.op(body, o)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, id: String, kind: &str, d: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(body, p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rv(body, &b.1);
                        let l = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, l]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbi = |b: BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbi(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbi(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbi(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let vs: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bbi(b)])).collect();
                    J::A(vec![s("switch"), self.op(body, discr), s(tstr(dt)), J::A(vs), bbi(targets.otherwise()), sp])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let needs = pt.needs_drop(tcx, TypingEnv::post_analysis(tcx, body.source.def_id()));
                    let p = self.place(body, place);
                    J::A(vec![s("drop"), p, self.ty(pt), J::B(needs), bbi(*target), sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(body, func);
                    let a: Vec<J> = args.iter().map(|a| self.op(body, &a.node)).collect();
                    let at: Vec<J> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let dp = self.place(body, destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let exp = t.source_info.span.from_expansion();
                    let mac = if exp {
                        let ed = t.source_info.span.ctxt().outer_expn_data();
                        match ed.kind { rustc_span::ExpnKind::Macro(_, n) => s(n.to_string()), rustc_span::ExpnKind::Desugaring(k) => s(format!("{:?}", k)), _ => J::N }
                    } else { J::N };
                    J::O(vec![
                        ("t", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("at", J::A(at)),
                        ("dest", dp),
                        ("dty", dt),
                        ("to", target.map(bbi).unwrap_or(J::N)),
                        ("sp", sp),
                        ("mac", mac),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    let extra: Vec<J> = match &**msg {
                        AssertKind::BoundsCheck { len, index } => vec![self.op(body, len), self.op(body, index)],
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) => vec![self.op(body, a)],
                        _ => vec![],
                    };
                    J::A(vec![s("assert"), self.op(body, cond), J::B(*expected), s(k), J::A(extra), bbi(*target), sp])
                }
                _ => J::A(vec![s("other"), s(format!("{:?}", t.kind))]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let mut o = vec![
            ("id", s(id)),
            ("path", s(dpath(tcx, d))),
            ("kind", s(kind)),
            ("span", self.span(body.span)),
            ("exp", J::B(body.span.from_expansion())),
            ("nargs", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(bbs)),
            ("ssp", match body.spread_arg { Some(l) => J::I(l.as_usize() as i128), None => J::N }),
        ];
        let par = tcx.opt_parent(d).map(|p| s(did(tcx, p))).unwrap_or(J::N);
        o.push(("parent", par));
        let mut gs = vec![];
        {
            let root = tcx.typeck_root_def_id(d);
            let g = tcx.generics_of(root);
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    gs.push(s(p.name.to_string()));
                }
            }
        }
        o.push(("generics", J::A(gs)));
        if let Some(imp) = tcx.opt_parent(d) {
            if matches!(tcx.def_kind(imp), DefKind::Impl { .. }) {
                o.push(("impl_self", s(tstr(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.push(("impl_trait", s(dpath(tcx, tr.skip_binder().def_id))));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
            }
        }
        if kind == "fn" {
            o.push(("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
        }
        J::O(o)
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx { tcx, adts: BTreeMap::new() };
    let mut bodies = vec![];
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        let id = did(tcx, d);
        let k = tcx.def_kind(d);
        match k {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let b = tcx.optimized_mir(d);
                let kind = if k == DefKind::Closure { "closure" } else { "fn" };
                bodies.push(cx.body(id.clone(), kind, d, b));
                for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                    bodies.push(cx.body(format!("{}#{}", id, i.as_usize()), "promoted", d, p));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                if tcx.generics_of(d).count() == 0 {
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(id.clone(), if matches!(k, DefKind::Static { .. }) { "static" } else { "const" }, d, b));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(format!("{}#{}", id, i.as_usize()), "promoted", d, p));
                    }
                }
            }
            _ => {}
        }
    }
    // local ADTs, impls, unsafe blocks, statics
    let mut impls = vec![];
    let mut extra = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        let k = tcx.def_kind(d);
        match k {
            DefKind::Struct | DefKind::Enum => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.note_adt(t);
            }
            DefKind::Impl { .. } => {
                let st = tstr(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                let tr = tcx.impl_opt_trait_ref(d).map(|t| s(dpath(tcx, t.skip_binder().def_id))).unwrap_or(J::N);
                let ms: Vec<J> = tcx.associated_item_def_ids(d).iter().map(|m| {
                    let ai = tcx.associated_item(*m);
                    J::A(vec![s(tcx.opt_item_name(*m).map(|n| n.to_string()).unwrap_or_default()), s(did(tcx, *m)),
                        ai.trait_item_def_id().map(|t| s(dpath(tcx, t))).unwrap_or(J::N)])
                }).collect();
                impls.push(J::O(vec![
                    ("self", s(st)), ("trait", tr), ("items", J::A(ms)),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                ]));
            }
            DefKind::Static { .. } => extra.push(J::A(vec![s("static"), s(did(tcx, d)), J::B(tcx.is_mutable_static(d))])),
            _ => {}
        }
    }
    let unsafety: Vec<J> = find_unsafe(tcx, &mut cx);
    let adts = J::A(cx.adts.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect());
    let mut out = String::new();
    J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("bodies", J::A(bodies)),
        ("adts", adts),
        ("impls", J::A(impls)),
        ("extra", J::A(extra)),
        ("unsafe_blocks", J::A(unsafety)),
    ])
    .write(&mut out);
    out
}

struct UV<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    cx: &'a Cx<'tcx>,
    out: Vec<J>,
}
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UV<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let sp = self.cx.span(b.span);
            self.out.push(J::A(vec![sp, J::B(b.span.from_expansion())]));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
fn find_unsafe<'tcx>(tcx: TyCtxt<'tcx>, cx: &mut Cx<'tcx>) -> Vec<J> {
    let mut v = UV { tcx, cx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    v.out
}
