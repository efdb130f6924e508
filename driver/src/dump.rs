use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_span::Span;
use std::collections::HashMap;
use std::io::Write;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    index: std::cell::RefCell<HashMap<Instance<'tcx>, usize>>,
}

fn nt<R>(f: impl FnOnce() -> R) -> R {
    with_no_trimmed_paths!(with_resolve_crate_name!(f()))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { nt(|| self.tcx.def_path_str(d)) }
    fn ty(&self, t: Ty<'tcx>) -> J { J::s(nt(|| t.to_string())) }
    fn span(&self, s: Span) -> J {
        // Report the outermost call site so macro-generated code is located where it is used.
        let sm = self.tcx.sess.source_map();
        let outer = s.source_callsite();
        let lo = sm.lookup_char_pos(outer.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::Arr(a.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Lifetime(_) => None,
            _ => Some(J::s(nt(|| g.to_string()))),
        }).collect())
    }
    fn id(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        match self.index.borrow().get(&Instance::new_raw(d, a)) { Some(i) => J::i(*i), None => J::Null }
    }
    /// Identity of a monomorphic function: path plus its type arguments (closures: parent arguments).
    fn key(&self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let args: Vec<String> = if self.tcx.is_closure_like(d) {
            a.as_closure().parent_args().iter().filter(|g| !matches!(g.kind(), ty::GenericArgKind::Lifetime(_))).map(|g| nt(|| g.to_string())).collect()
        } else {
            a.iter().filter(|g| !matches!(g.kind(), ty::GenericArgKind::Lifetime(_))).map(|g| nt(|| g.to_string())).collect()
        };
        let p = self.path(d);
        if args.is_empty() { p } else { format!("{} <{}>", p, args.join(", ")) }
    }
    fn callee(&self, env: TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![("path", J::s(self.path(d))), ("args", self.args(a)), ("local", J::Bool(d.is_local()))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", J::s(self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a)) {
                let rd = inst.def_id();
                v.push(("key", J::s(self.key(rd, inst.args))));
                if matches!(inst.def, ty::InstanceKind::Item(_)) { v.push(("id", self.id(rd, inst.args))); }
                if let ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = inst.def {
                    if let Some(ct) = inst.args.types().next() {
                        if let ty::Closure(cd, ca) = ct.kind() {
                            v.push(("shim", self.id(*cd, ca)));
                        }
                    }
                }
                if let Some(ct) = inst.args.types().next() {
                    if rd == d { if let ty::FnDef(fd, fa) = ct.kind() {
                        if let Ok(Some(fi)) = Instance::try_resolve(tcx, env, *fd, fa.skip_binder()) {
                            v.push(("fnself", J::Arr(vec![self.id(fi.def_id(), fi.args), J::s(self.path(fi.def_id())), self.args(fi.args)])));
                        }
                    } }
                }
                v.push(("kind", J::s(format!("{:?}", inst.def).split('(').next().unwrap_or("").split(' ').next().unwrap_or("").to_string())));
                if rd != d {
                    v.push(("res", J::s(self.path(rd))));
                    v.push(("res_args", self.args(inst.args)));
                    v.push(("res_local", J::Bool(rd.is_local())));
                }
            }
        }
        J::Obj(v)
    }
    fn constant(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut v = vec![("ty", self.ty(t))];
        match t.kind() {
            ty::FnDef(d, a) => {
                v.push(("fn", self.callee(env, *d, a.skip_binder())));
                return J::Obj(v);
            }
            ty::Closure(d, a) => {
                v.push(("closure", self.id(*d, a)));
                return J::Obj(v);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", J::i(p.as_usize())));
                v.push(("of", J::s(self.path(u.def))));
            } else {
                v.push(("named", J::s(self.path(u.def))));
                v.push(("named_args", self.args(u.args)));
            }
        }
        if let Const::Ty(_, k) = c.const_ {
            v.push(("cty", J::s(nt(|| k.to_string()))));
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            v.push(("static", J::s(self.path(d))));
            return J::Obj(v);
        }
        if let Ok(val) = c.const_.eval(tcx, env, c.span) {
            match val {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    v.push(("bits", J::s(i.to_bits(i.size()).to_string())));
                }
                ConstValue::ZeroSized => v.push(("zst", J::Bool(true))),
                _ => {
                    let mut done = false;
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if e.is_integral()) {
                            if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                                v.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                                done = true;
                            }
                        }
                        if !done {
                            // &[u8; N] and other plain byte data behind one pointer
                            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(al)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                    let al = al.inner();
                                    if al.provenance().ptrs().is_empty() && al.size().bytes() <= 4096 {
                                        let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..al.size().bytes() as usize);
                                        v.push(("bytes", J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect())));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        J::Obj(v)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut projs = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::Arr(vec![J::s("*")]),
                ProjectionElem::Field(f, fty) => {
                    let mut name = f.as_usize().to_string();
                    let mut adt = J::Null;
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        name = def.variant(vi).fields[f].name.to_string();
                        adt = J::s(self.path(def.did()));
                    }
                    J::Arr(vec![J::s("f"), J::i(f.as_usize()), J::s(name), self.ty(fty), adt])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } =>
                    J::Arr(vec![J::s("ci"), J::Int(offset as i128), J::Bool(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::Arr(vec![J::s("ss"), J::Int(from as i128), J::Int(to as i128), J::Bool(from_end)]),
                ProjectionElem::Downcast(n, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    J::Arr(vec![J::s("d"), J::i(vi.as_usize()), J::s(name)])
                }
                _ => J::Arr(vec![J::s("?")]),
            };
            projs.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::Arr(vec![J::i(p.local.as_usize()), J::Arr(projs)])
    }
    fn operand(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Obj(vec![("c", self.place(body, p))]),
            Operand::Move(p) => J::Obj(vec![("m", self.place(body, p))]),
            Operand::Constant(c) => J::Obj(vec![("k", self.constant(env, c))]),
            Operand::RuntimeChecks(_) => J::Obj(vec![("rc", J::Bool(true))]),
        }
    }
    fn rvalue(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(env, body, o);
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), op(o)]),
            Rvalue::Repeat(o, n) => J::Arr(vec![J::s("repeat"), op(o), J::s(nt(|| n.to_string()))]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s(if matches!(k, BorrowKind::Mut { .. }) { "refmut" } else { "ref" }), self.place(body, p)]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(self.path(*d))]),
            Rvalue::RawPtr(k, p) => J::Arr(vec![
                J::s(if matches!(k, RawPtrKind::Mut) { "rawmut" } else { "rawconst" }), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("cast"), J::s(format!("{:?}", k)), op(o), self.ty(f), self.ty(*t)])
            }
            Rvalue::BinaryOp(b, x) => {
                let t = x.0.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", b)), op(&x.0), op(&x.1), self.ty(t)])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", u)), op(o), self.ty(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                J::Arr(vec![J::s("discr"), self.place(body, p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => J::Arr(vec![J::s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let va = def.variant(*vi);
                        J::Arr(vec![J::s("adt"), J::s(self.path(*d)), J::s(va.name.to_string()),
                            J::Arr(va.fields.iter().map(|f| J::s(f.name.to_string())).collect()), self.args(a)])
                    }
                    AggregateKind::Closure(d, a) => J::Arr(vec![J::s("closure"), self.id(*d, a)]),
                    AggregateKind::RawPtr(t, _) => J::Arr(vec![J::s("rawptr"), self.ty(*t)]),
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kj, J::Arr(ops.iter().map(|o| op(o)).collect())])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![J::s("use"), J::Obj(vec![("c", self.place(body, p))])]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                J::s(if m.is_mut() { "refmut" } else { "ref" }), self.place(body, p)]),
            Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![J::s("use"), op(o)]),
        }
    }
    fn assert_kind(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, m: &AssertKind<Operand<'tcx>>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(env, body, o);
        match m {
            AssertKind::BoundsCheck { len, index } => J::Arr(vec![J::s("bounds"), op(len), op(index)]),
            AssertKind::Overflow(b, l, r) => {
                let t = l.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("overflow"), J::s(format!("{:?}", b)), op(l), op(r), self.ty(t)])
            }
            AssertKind::OverflowNeg(o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("overflow"), J::s("Neg"), op(o), J::Null, self.ty(t)])
            }
            AssertKind::DivisionByZero(o) => J::Arr(vec![J::s("div0"), op(o)]),
            AssertKind::RemainderByZero(o) => J::Arr(vec![J::s("rem0"), op(o)]),
            _ => J::Arr(vec![J::s("other")]),
        }
    }
    fn body(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals = body.local_decls.iter_enumerated().map(|(l, d)| {
            J::Arr(vec![self.ty(d.ty), names.get(&l.as_usize()).map(|s| J::s(s.clone())).unwrap_or(J::Null)])
        }).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => st.push(J::Arr(vec![
                        J::s("="), self.place(body, &b.0), self.rvalue(env, body, &b.1), self.span(s.source_info.span)])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::Arr(vec![
                        J::s("setd"), self.place(body, place), J::i(variant_index.as_usize())])),
                    StatementKind::StorageDead(l) => st.push(J::Arr(vec![J::s("dead"), J::i(l.as_usize())])),
                    StatementKind::Intrinsic(i) => st.push(match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => J::Arr(vec![J::s("cpy"),
                            self.operand(env, body, &c.src), self.operand(env, body, &c.dst), self.operand(env, body, &c.count)]),
                        NonDivergingIntrinsic::Assume(o) => J::Arr(vec![J::s("assume"), self.operand(env, body, o)]),
                    }),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let b = |x: BasicBlock| J::i(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), b(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    J::Arr(vec![J::s("switch"), self.operand(env, body, discr), self.ty(ty),
                        J::Arr(targets.iter().map(|(v, t)| J::Arr(vec![J::s(v.to_string()), b(t)])).collect()),
                        b(targets.otherwise()), sp])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    J::Arr(vec![J::s("drop"), self.place(body, place), b(*target), self.ty(ty)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => J::Arr(vec![
                    J::s("call"), self.operand(env, body, func),
                    J::Arr(args.iter().map(|a| self.operand(env, body, &a.node)).collect()),
                    self.place(body, destination), target.map(|x| b(x)).unwrap_or(J::Null), sp]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::Arr(vec![
                    J::s("assert"), self.operand(env, body, cond), J::Bool(*expected),
                    self.assert_kind(env, body, msg), b(*target), sp]),
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![J::s("goto"), b(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), b(*real_target)]),
                _ => J::Arr(vec![J::s("other")]),
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", tj), ("u", J::Bool(bb.is_cleanup))]));
        }
        vec![("argc", J::i(body.arg_count)), ("locals", J::Arr(locals)), ("blocks", J::Arr(blocks))]
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let cx = Cx { tcx, index: Default::default() };
    let mut lines: Vec<String> = vec![];
    let mut emit = |j: J| {
        let mut s = String::new();
        j.write(&mut s);
        lines.push(s);
    };
    // ADTs
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let def = tcx.adt_def(did);
            let vars = def.variants().iter_enumerated().map(|(vi, v)| {
                let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                J::Arr(vec![J::s(v.name.to_string()), J::s(d),
                    J::Arr(v.fields.iter().map(|f| J::Arr(vec![J::s(f.name.to_string()),
                        J::s(nt(|| tcx.type_of(f.did).instantiate_identity().skip_norm_wip().to_string()))])).collect())])
            }).collect();
            emit(J::Obj(vec![("rec", J::s("adt")), ("path", J::s(cx.path(did))), ("variants", J::Arr(vars)), ("span", cx.span(tcx.def_span(did)))]));
        }
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(did) {
            let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            let items = tcx.associated_items(did).in_definition_order().map(|a| {
                J::Arr(vec![J::s(a.name().to_string()), J::s(cx.path(a.def_id))])
            }).collect();
            emit(J::Obj(vec![("rec", J::s("impl")), ("trait", J::s(cx.path(tr.def_id))), ("self", cx.ty(tr.self_ty())),
                ("args", cx.args(tr.args)), ("items", J::Arr(items)), ("span", cx.span(tcx.def_span(did)))]));
        }
    }
    // Constants and statics (for named constants the evaluator could not reduce).
    let mut nb = 0;
    for &id in tcx.mir_keys(()).iter() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) { continue; }
        let env = TypingEnv::post_analysis(tcx, did);
        let body = tcx.mir_for_ctfe(id);
        let mut v = vec![("rec", J::s("const")), ("path", J::s(cx.path(did))), ("span", cx.span(tcx.def_span(did)))];
        v.extend(cx.body(env, body));
        let pr = tcx.promoted_mir(did);
        if !pr.is_empty() {
            v.push(("promoted", J::Arr(pr.iter().map(|b| J::Obj(cx.body(env, b))).collect())));
        }
        emit(J::Obj(v));
        nb += 1;
    }
    // Every monomorphic function reachable from a non-generic body, with its monomorphic MIR.
    let mut work: Vec<Instance<'_>> = vec![];
    for &id in tcx.mir_keys(()).iter() {
        let did = id.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => unreachable!(),
        });
        let inst = Instance::new_raw(did, args);
        let mut index = cx.index.borrow_mut();
        if !index.contains_key(&inst) { index.insert(inst, work.len()); work.push(inst); }
    }
    let fenv = TypingEnv::fully_monomorphized();
    let mut i = 0;
    while i < work.len() {
        let inst = work[i];
        i += 1;
        let did = inst.def_id();
        let gbody = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, fenv, ty::EarlyBinder::bind(tcx, gbody.clone()));
        for bb in body.basic_blocks.iter() {
            let mut targets: Vec<(DefId, ty::GenericArgsRef<'_>)> = vec![];
            for s in &bb.statements {
                if let StatementKind::Assign(b) = &s.kind {
                    match &b.1 {
                        Rvalue::Cast(CastKind::PointerCoercion(_, _), o, _) => {
                            match o.ty(&body.local_decls, tcx).kind() {
                                ty::FnDef(d, a) => targets.push((*d, a.skip_binder())),
                                ty::Closure(d, a) => targets.push((*d, a)),
                                _ => {}
                            }
                        }
                        Rvalue::Aggregate(k, _) => if let AggregateKind::Closure(d, a) = &**k {
                            targets.push((*d, a));
                        },
                        _ => {}
                    }
                }
            }
            if let TerminatorKind::Call { func, args, .. } = &bb.terminator().kind {
                match func.ty(&body.local_decls, tcx).kind() {
                    ty::FnDef(d, a) => {
                        let a = a.skip_binder();
                        targets.push((*d, a));
                        for g in a.types() { match g.kind() {
                            ty::FnDef(d, a) => targets.push((*d, a.skip_binder())),
                            ty::Closure(d, a) => targets.push((*d, a)),
                            _ => {}
                        } }
                    }
                    _ => {}
                }
                for x in args.iter() {
                    match x.node.ty(&body.local_decls, tcx).kind() {
                        ty::FnDef(d, a) => targets.push((*d, a.skip_binder())),
                        ty::Closure(d, a) => targets.push((*d, a)),
                        _ => {}
                    }
                }
            }
            for (d, a) in targets {
                let (rd, ra) = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    match Instance::try_resolve(tcx, fenv, d, a) {
                        Ok(Some(r)) if matches!(r.def, ty::InstanceKind::Item(_)) => (r.def_id(), r.args),
                        _ => continue,
                    }
                } else { (d, a) };
                if !matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
                if !tcx.is_mir_available(rd) { continue; }
                if !rd.is_local() {
                    if tcx.intrinsic(rd).is_some() { continue; }
                    let p = cx.path(rd);
                    if !inline_std(&p) { continue; }
                }
                let ni = Instance::new_raw(rd, ra);
                cx.index.borrow_mut().entry(ni).or_insert_with(|| { work.push(ni); work.len() - 1 });
            }
        }
        let local = did.is_local();
        let mut v = vec![("rec", J::s("inst")), ("id", J::i(i - 1)), ("key", J::s(cx.key(did, inst.args))), ("path", J::s(cx.path(did))),
            ("args", if tcx.is_closure_like(did) { J::Arr(vec![]) } else { cx.args(inst.args) }), ("local", J::Bool(local)), ("closure", J::Bool(tcx.is_closure_like(did)))];
        let root = tcx.typeck_root_def_id(did);
        if local {
            v.push(("span", cx.span(tcx.def_span(did))));
            v.push(("exp", J::Bool(tcx.def_span(root).from_expansion())));
        }
        if let Some(parent) = tcx.opt_parent(root) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                v.push(("impl_self", J::s(nt(|| tcx.type_of(parent).instantiate_identity().skip_norm_wip().to_string()))));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    v.push(("impl_trait", J::s(cx.path(tr.def_id))));
                    v.push(("impl_args", cx.args(tr.args)));
                }
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            v.push(("name", J::s(tcx.item_name(did).to_string())));
        }
        v.extend(cx.body(fenv, &body));
        let pr = tcx.promoted_mir(did);
        if !pr.is_empty() {
            v.push(("promoted", J::Arr(pr.iter().map(|b| {
                let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, fenv, ty::EarlyBinder::bind(tcx, b.clone()));
                J::Obj(cx.body(fenv, &b))
            }).collect())));
        }
        emit(J::Obj(v));
    }
    emit(J::Obj(vec![("rec", J::s("end")), ("consts", J::i(nb)), ("insts", J::i(work.len()))]));
    let tmp = format!("{}.tmp", out);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("create dump"));
    for l in &lines {
        f.write_all(l.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
    f.flush().unwrap();
    drop(f);
    std::fs::rename(&tmp, out).unwrap();
}

/// Small, side-effect-free std adapters whose MIR is emitted so that the
/// analyses see through them (Option/Result combinators, `?`, comparisons).
fn inline_std(p: &str) -> bool {
    const PRE: &[&str] = &["std::option::Option::<T>::", "std::result::Result::<T, E>::", "<std::option::Option<T> as std::ops::Try", "<std::result::Result<T, E> as std::ops::Try",
        "<std::option::Option<T> as std::ops::FromResidual", "<std::result::Result<T, F> as std::ops::FromResidual", "<std::result::Result<T, E> as std::ops::FromResidual",
        "<std::option::Option<T> as std::cmp::PartialEq", "<std::result::Result<T, E> as std::cmp::PartialEq", "<std::option::Option<T> as std::clone", "std::cmp::impls::", "<T as std::convert::", "std::cmp::PartialEq::ne", "std::option::", "std::result::",
        "std::cmp::Ord", "std::cmp::PartialOrd", "std::mem::replace", "std::mem::take", "std::mem::swap", "std::ops::function::impls", "std::cmp::min", "std::cmp::max", "std::convert::"];
    PRE.iter().any(|x| p.starts_with(x))
}
