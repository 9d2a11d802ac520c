// Fact extractor: a rustc driver that dumps the type-checked program (MIR with
// resolved callees, evaluated constants, types, ADTs, item visibility) of the
// `little_exif` library crate as JSON. It executes nothing of the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use rustc_abi::{Size, Variants, FieldsShape};

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("LE_FACTS_CRATE").unwrap_or("little_exif".into());
        if name == want {
            if let Ok(out) = std::env::var("LE_FACTS_OUT") {
                let facts = dump(tcx);
                std::fs::write(&out, facts.render()).expect("write facts");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Awarnings".into());
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}

fn span_json(tcx: TyCtxt<'_>, sp: Span) -> J {
    // outermost call site, plus the chain of macro names
    let mut macros = vec![];
    let mut cur = sp;
    while cur.from_expansion() {
        let data = cur.ctxt().outer_expn_data();
        match data.kind {
            ExpnKind::Macro(_, n) => macros.push(J::s(n.to_string())),
            ExpnKind::Desugaring(k) => macros.push(J::s(format!("~{:?}", k))),
            _ => {}
        }
        cur = data.call_site;
    }
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(cur.lo());
    let f = format!("{}", lo.file.name.prefer_local_unconditionally());
    let mut v = vec![J::s(f), J::i(lo.line as i128), J::i(lo.col.0 as i128)];
    v.push(J::A(macros));
    J::A(v)
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}

fn ty_s(ty: Ty<'_>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", ty)))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'tcx Body<'tcx>,
}

fn fn_json<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
    let mut o = vec![
        ("fn", J::s(path(tcx, d))),
        ("krate", J::s(tcx.crate_name(d.krate).to_string())),
        ("gargs", J::A(args.iter().map(|a| J::s(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", a))))).collect())),
    ];
    if let Some(t) = tcx.trait_of_assoc(d) {
        o.push(("trait", J::s(path(tcx, t))));
    }
    if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
        let rd = inst.def_id();
        o.push(("res", J::s(path(tcx, rd))));
        o.push(("reskrate", J::s(tcx.crate_name(rd.krate).to_string())));
        o.push(("reskind", J::s(match inst.def { ty::InstanceKind::Item(_) => "item".to_string(), k => { let s = format!("{:?}", k); s.split('(').next().unwrap_or("").to_string() } })));
        if rd.is_local() || tcx.def_kind(rd) == DefKind::Closure {
            o.push(("resargs", J::A(inst.args.iter().map(|a| J::s(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", a))))).collect())));
        }
    }
    J::O(o.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn read_val<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, ty: Ty<'tcx>, aid: rustc_middle::mir::interpret::AllocId, off: Size, depth: usize) -> Option<J> {
    if depth > 8 { return None; }
    let ga = tcx.try_get_global_alloc(aid)?;
    let alloc = match ga {
        GlobalAlloc::Memory(a) => a,
        GlobalAlloc::Static(d) => { tcx.eval_static_initializer(d).ok()? }
        _ => return None,
    };
    let a = alloc.inner();
    let layout = tcx.layout_of(env.as_query_input(ty)).ok()?;
    let rd = |off: Size, sz: Size| -> Option<Scalar> {
        a.read_scalar(&tcx, AllocRange { start: off, size: sz }, false).ok()
    };
    match ty.kind() {
        ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) | ty::Float(_) => {
            let s = rd(off, layout.size)?;
            scalar_json(ty, s)
        }
        ty::Array(el, n) => {
            let n = n.try_to_target_usize(tcx)?;
            let ell = tcx.layout_of(env.as_query_input(*el)).ok()?;
            let mut v = vec![];
            for i in 0..n { v.push(read_val(tcx, env, *el, aid, off + ell.size * i, depth + 1)?); }
            Some(J::A(v))
        }
        ty::Ref(_, inner, _) => {
            let psz = tcx.data_layout.pointer_size();
            let p = a.read_scalar(&tcx, AllocRange { start: off, size: psz }, true).ok()?;
            let ptr = p.to_pointer(&tcx);
            let (prov, poff) = ptr.into_raw_parts();
            let target = prov?.alloc_id();
            match inner.kind() {
                ty::Str => {
                    let len = rd(off + psz, psz)?.to_target_usize(&tcx).discard_err()?;
                    read_str(tcx, target, poff, len)
                }
                ty::Slice(el) => {
                    let len = rd(off + psz, psz)?.to_target_usize(&tcx).discard_err()?;
                    let ell = tcx.layout_of(env.as_query_input(*el)).ok()?;
                    let mut v = vec![];
                    for i in 0..len { v.push(read_val(tcx, env, *el, target, poff + ell.size * i, depth + 1)?); }
                    Some(J::A(v))
                }
                _ => read_val(tcx, env, *inner, target, poff, depth + 1),
            }
        }
        ty::Tuple(ts) => {
            let mut v = vec![];
            for (i, t) in ts.iter().enumerate() { v.push(read_val(tcx, env, t, aid, off + layout.fields.offset(i), depth + 1)?); }
            Some(J::A(v))
        }
        ty::Adt(def, args) if def.is_struct() => {
            let mut v = vec![("adt".to_string(), J::s(path(tcx, def.did())))];
            for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                let fty = f.ty(tcx, args).skip_normalization();
                let fl = match &layout.fields { FieldsShape::Primitive => Size::ZERO, _ => layout.fields.offset(i) };
                v.push((f.name.to_string(), read_val(tcx, env, fty, aid, off + fl, depth + 1)?));
            }
            Some(J::O(v))
        }
        ty::Adt(def, _) if def.is_enum() => {
            let vi = match &layout.variants {
                Variants::Single { index } => *index,
                Variants::Multiple { tag, tag_field, tag_encoding, .. } => {
                    if !matches!(tag_encoding, rustc_abi::TagEncoding::Direct) { return None; }
                    let to = layout.fields.offset(tag_field.as_usize());
                    let s = rd(off + to, tag.size(&tcx))?;
                    let bits = s.to_bits(tag.size(&tcx)).discard_err()?;
                    let mut found = None;
                    for (i, d) in def.discriminants(tcx) { if d.val == bits { found = Some(i); } }
                    found?
                }
                _ => return None,
            };
            Some(J::O(vec![("adt".to_string(), J::s(path(tcx, def.did()))), ("variant".to_string(), J::s(def.variant(vi).name.to_string()))]))
        }
        _ => None,
    }
}

fn read_str(tcx: TyCtxt<'_>, aid: rustc_middle::mir::interpret::AllocId, off: Size, len: u64) -> Option<J> {
    if let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(aid)? {
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..(off.bytes() + len) as usize);
        return Some(J::s(String::from_utf8_lossy(b).to_string()));
    }
    None
}

fn scalar_json(ty: Ty<'_>, s: Scalar) -> Option<J> {
    let i = match s { Scalar::Int(i) => i, _ => return None };
    let sz = i.size();
    Some(match ty.kind() {
        ty::Int(_) => J::i(i.to_int(sz)),
        ty::Bool => J::i(i.to_uint(sz) as i128),
        ty::Float(_) => J::s(format!("float:{:x}", i.to_uint(sz))),
        _ => { let u = i.to_uint(sz); if u > i128::MAX as u128 { J::s(format!("{}", u)) } else { J::i(u as i128) } }
    })
}

impl<'tcx> Cx<'tcx> {
    fn const_val(&self, cv: ConstValue, ty: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        match cv {
            ConstValue::Scalar(s) => match s {
                Scalar::Int(_) => match ty.kind() {
                    ty::Adt(def, _) if def.is_enum() => {
                        let i = match s { Scalar::Int(i) => i, _ => return None };
                        let bits = i.to_uint(i.size());
                        for (vi, d) in def.discriminants(tcx) {
                            if d.val == bits {
                                return Some(J::O(vec![("adt".into(), J::s(path(tcx, def.did()))), ("variant".into(), J::s(def.variant(vi).name.to_string()))]));
                            }
                        }
                        None
                    }
                    ty::Adt(..) => { None }
                    _ => scalar_json(ty, s),
                },
                Scalar::Ptr(p, _) => {
                    let (prov, off) = p.into_raw_parts();
                    if let ty::Ref(_, inner, _) = ty.kind() {
                        read_val(tcx, self.env, *inner, prov.alloc_id(), off, 0)
                    } else { None }
                }
            },
            ConstValue::ZeroSized => {
                match ty.kind() {
                    ty::Adt(def, _) => Some(J::O(vec![("adt".into(), J::s(path(tcx, def.did())))])),
                    _ => None,
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = ty.kind() {
                    if inner.is_str() { return read_str(tcx, alloc_id, Size::ZERO, meta); }
                    if let ty::Slice(el) = inner.kind() {
                        let ell = tcx.layout_of(self.env.as_query_input(*el)).ok()?;
                        let mut v = vec![];
                        for i in 0..meta { v.push(read_val(tcx, self.env, *el, alloc_id, ell.size * i, 1)?); }
                        return Some(J::A(v));
                    }
                }
                None
            }
            ConstValue::Indirect { alloc_id, offset } => read_val(tcx, self.env, ty, alloc_id, offset, 0),
        }
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o: Vec<(String, J)> = vec![("k".into(), J::s("const")), ("ty".into(), J::s(ty_s(ty)))];
        match ty.kind() {
            ty::FnDef(d, args) => {
                o.push(("fnref".into(), fn_json(tcx, self.env, *d, args.skip_binder())));
                return J::O(o);
            }
            ty::Closure(d, _) => { o.push(("closure".into(), J::s(path(tcx, *d)))); return J::O(o); }
            _ => {}
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted { o.push(("promoted".into(), J::i(p.as_usize() as i128))); }
            else { o.push(("constdef".into(), J::s(path(tcx, uv.def)))); }
        }
        if let Ok(cv) = c.const_.eval(tcx, self.env, c.span) {
            if let Some(v) = self.const_val(cv, ty) { o.push(("v".into(), v)); }
            if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                let (prov, _) = p.into_raw_parts();
                if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    o.push(("static".into(), J::s(path(tcx, d))));
                    o.push(("mutstatic".into(), J::i(tcx.is_mutable_static(d) as i128)));
                }
            }
        }
        J::O(o)
    }

    fn place(&self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::i(p.local.as_usize() as i128)];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, ty) => {
                    let mut name = String::new();
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !def.is_union() { if let Some(fd) = def.variants().get(vi).and_then(|v| v.fields.get(f)) { name = fd.name.to_string(); } }
                    }
                    J::A(vec![J::s("f"), J::i(f.as_usize() as i128), J::s(name), J::s(ty_s(ty))])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::i(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::s("ci"), J::i(offset as i128), J::i(min_length as i128), J::i(from_end as i128)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("ss"), J::i(from as i128), J::i(to as i128), J::i(from_end as i128)]),
                ProjectionElem::Downcast(n, vi) => J::A(vec![J::s("d"), J::i(vi.as_usize() as i128), J::s(n.map(|s| s.to_string()).unwrap_or_default())]),
                _ => J::s("?"),
            });
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn op(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::o(vec![("k", J::s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::o(vec![("k", J::s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            other => J::o(vec![("k", J::s("rtcheck")), ("s", J::s(format!("{:?}", other)))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::o(vec![("r", J::s("use")), ("o", self.op(o))]),
            Rvalue::Repeat(o, n) => J::o(vec![("r", J::s("repeat")), ("o", self.op(o)), ("n", n.try_to_target_usize(self.tcx).map(|x| J::i(x as i128)).unwrap_or(J::Null))]),
            Rvalue::Ref(_, bk, p) => J::o(vec![("r", J::s("ref")), ("mut", J::i(matches!(bk, BorrowKind::Mut { .. }) as i128)), ("p", self.place(p))]),
            Rvalue::RawPtr(_, p) => J::o(vec![("r", J::s("rawptr")), ("p", self.place(p))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&self.body.local_decls, self.tcx);
                J::o(vec![("r", J::s("cast")), ("kind", J::s(format!("{:?}", k))), ("o", self.op(o)), ("from", J::s(ty_s(from))), ("to", J::s(ty_s(*t)))])
            }
            Rvalue::BinaryOp(b, ab) => { let (a, c) = (&ab.0, &ab.1); J::o(vec![("r", J::s("bin")), ("op", J::s(format!("{:?}", b))), ("a", self.op(a)), ("b", self.op(c)), ("ty", J::s(ty_s(a.ty(&self.body.local_decls, self.tcx))))]) }
            Rvalue::UnaryOp(u, o) => J::o(vec![("r", J::s("un")), ("op", J::s(format!("{:?}", u))), ("o", self.op(o)), ("ty", J::s(ty_s(o.ty(&self.body.local_decls, self.tcx))))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                J::o(vec![("r", J::s("discr")), ("p", self.place(p)), ("ty", J::s(ty_s(t))), ("adt", match t.kind() { ty::Adt(d, _) => J::s(path(self.tcx, d.did())), _ => J::Null })])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => { o.push(("kind", J::s("array"))); o.push(("ty", J::s(ty_s(*t)))); }
                    AggregateKind::Tuple => o.push(("kind", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, ..) => {
                        o.push(("kind", J::s("adt")));
                        o.push(("adt", J::s(path(self.tcx, *d))));
                        let def = self.tcx.adt_def(*d);
                        o.push(("variant", J::s(def.variant(*vi).name.to_string())));
                        o.push(("vi", J::i(vi.as_usize() as i128)));
                        o.push(("fields", J::A(def.variant(*vi).fields.iter().map(|f| J::s(f.name.to_string())).collect())));
                    }
                    AggregateKind::Closure(d, _) => { o.push(("kind", J::s("closure"))); o.push(("closure", J::s(path(self.tcx, *d)))); }
                    AggregateKind::RawPtr(..) => o.push(("kind", J::s("rawptr"))),
                    _ => o.push(("kind", J::s("other"))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.op(x)).collect())));
                J::o(o)
            }
            Rvalue::CopyForDeref(p) => J::o(vec![("r", J::s("use")), ("o", J::o(vec![("k", J::s("copy")), ("p", self.place(p))]))]),
            other => J::o(vec![("r", J::s("other")), ("s", J::s(format!("{:?}", other)))]),
        }
    }

    fn bb(b: BasicBlock) -> J { J::i(b.as_usize() as i128) }

    fn term(&self, t: &Terminator<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&str, J)> = vec![("sp", span_json(tcx, t.source_info.span))];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { o.push(("t", J::s("goto"))); o.push(("to", Self::bb(*target))); }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("t", J::s("switch")));
                o.push(("o", self.op(discr)));
                o.push(("ty", J::s(ty_s(discr.ty(&self.body.local_decls, tcx)))));
                let ty = discr.ty(&self.body.local_decls, tcx);
                let mut arms = vec![];
                for (v, b) in targets.iter() {
                    let val = match ty.kind() { ty::Int(it) => { let bits = it.bit_width().unwrap_or(64); let s = 128 - bits as u32; J::i(((v as i128) << s) >> s) } _ => if v > i128::MAX as u128 { J::s(format!("{}", v)) } else { J::i(v as i128) } };
                    arms.push(J::A(vec![val, Self::bb(b)]));
                }
                o.push(("arms", J::A(arms)));
                o.push(("else", Self::bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("t", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("t", J::s("unreachable"))),
            TerminatorKind::UnwindResume => o.push(("t", J::s("resume"))),
            TerminatorKind::UnwindTerminate(_) => o.push(("t", J::s("abort"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("t", J::s("drop")));
                o.push(("p", self.place(place)));
                o.push(("ty", J::s(ty_s(place.ty(&self.body.local_decls, tcx).ty))));
                o.push(("to", Self::bb(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("t", J::s("call")));
                o.push(("f", self.op(func)));
                o.push(("args", J::A(args.iter().map(|a| self.op(&a.node)).collect())));
                o.push(("argtys", J::A(args.iter().map(|a| J::s(ty_s(a.node.ty(&self.body.local_decls, tcx)))).collect())));
                o.push(("d", self.place(destination)));
                o.push(("dty", J::s(ty_s(destination.ty(&self.body.local_decls, tcx).ty))));
                o.push(("to", target.map(Self::bb).unwrap_or(J::Null)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("t", J::s("assert")));
                o.push(("o", self.op(cond)));
                o.push(("exp", J::i(*expected as i128)));
                let (kind, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                    AssertKind::Overflow(b, a, c) => (format!("overflow:{:?}", b), vec![self.op(a), self.op(c)]),
                    AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.op(a)]),
                    AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.op(a)]),
                    AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.op(a)]),
                    k => (format!("{:?}", k).chars().take(40).collect(), vec![]),
                };
                o.push(("kind", J::s(kind)));
                o.push(("ops", J::A(ops)));
                o.push(("to", Self::bb(*target)));
            }
            k => { o.push(("t", J::s("other"))); o.push(("s", J::s(format!("{:?}", k).chars().take(80).collect::<String>()))); 
                o.push(("succ", J::A(t.successors().map(Self::bb).collect()))); }
        }
        J::o(o)
    }
}

fn body_json<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, body: &'tcx Body<'tcx>) -> Vec<(String, J)> {
    let cx = Cx { tcx, env, body };
    let mut names: std::collections::HashMap<usize, String> = Default::default();
    let mut upv: Vec<J> = vec![];
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = &v.value {
            if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            else { upv.push(J::A(vec![J::s(v.name.to_string()), cx.place(p)])); }
        }
    }
    let locals: Vec<J> = body.local_decls.iter_enumerated().map(|(l, d)| {
        J::A(vec![J::s(ty_s(d.ty)), names.get(&l.as_usize()).map(|n| J::s(n.clone())).unwrap_or(J::Null)])
    }).collect();
    let mut blocks = vec![];
    for (_, b) in body.basic_blocks.iter_enumerated() {
        let mut st = vec![];
        let mut sd = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(pr) => {
                    let (p, r) = &**pr;
                    st.push(J::o(vec![("p", cx.place(p)), ("v", cx.rvalue(r)), ("sp", span_json(tcx, s.source_info.span)), ("pty", J::s(ty_s(p.ty(&body.local_decls, tcx).ty)))]));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    st.push(J::o(vec![("setdiscr", cx.place(place)), ("vi", J::i(variant_index.as_usize() as i128))]));
                }
                StatementKind::StorageDead(l) => { sd.push(J::A(vec![J::i(st.len() as i128), J::i(l.as_usize() as i128)])); }
                _ => {}
            }
        }
        blocks.push(J::o(vec![("s", J::A(st)), ("sd", J::A(sd)), ("t", cx.term(b.terminator())), ("cleanup", J::i(b.is_cleanup as i128))]));
    }
    vec![
        ("argc".into(), J::i(body.arg_count as i128)),
        ("locals".into(), J::A(locals)),
        ("upvars".into(), J::A(upv)),
        ("blocks".into(), J::A(blocks)),
    ]
}

fn dump(tcx: TyCtxt<'_>) -> J {
    let mut fns = vec![];
    let eff = tcx.effective_visibilities(());
    for &ld in tcx.mir_keys(()).iter() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn { continue; }
        let env = TypingEnv::post_analysis(tcx, did);
        let body = tcx.optimized_mir(did);
        let mut o: Vec<(String, J)> = vec![
            ("path".into(), J::s(path(tcx, did))),
            ("kind".into(), J::s(format!("{:?}", kind))),
            ("sp".into(), span_json(tcx, tcx.def_span(did))),
            ("pub".into(), J::i(eff.is_reachable(ld) as i128)),
            ("exported".into(), J::i(eff.is_exported(ld) as i128)),
            ("generics".into(), J::A({
                let g = tcx.generics_of(did);
                let mut names = vec![];
                let mut cur = Some(g);
                let mut stack = vec![];
                while let Some(c) = cur { stack.push(c); cur = c.parent.map(|p| tcx.generics_of(p)); }
                for c in stack.into_iter().rev() { for p in &c.own_params { names.push(J::s(p.name.to_string())); } }
                names
            })),
        ];
        if kind == DefKind::AssocFn {
            let par = tcx.parent(did);
            if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                o.push(("self_ty".into(), J::s(ty_s(tcx.type_of(par).instantiate_identity().skip_normalization()))));
                if of_trait {
                    o.push(("impl_trait".into(), J::s(path(tcx, tcx.impl_trait_ref(par).skip_binder().def_id))));
                }
                o.push(("name".into(), J::s(tcx.item_name(did).to_string())));
            } else {
                o.push(("trait_default".into(), J::s(path(tcx, par))));
                o.push(("name".into(), J::s(tcx.item_name(did).to_string())));
            }
        } else if kind == DefKind::Fn {
            o.push(("name".into(), J::s(tcx.item_name(did).to_string())));
        }
        o.extend(body_json(tcx, env, body));
        let prom: Vec<J> = tcx.promoted_mir(did).iter().map(|b| J::O(body_json(tcx, env, b))).collect();
        o.push(("promoted".into(), J::A(prom)));
        fns.push(J::O(o));
    }
    // ADTs, statics, consts, impls
    let mut adts = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(did);
                let discr: std::collections::HashMap<_, _> = if def.is_enum() { def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect() } else { Default::default() };
                let vars = def.variants().iter_enumerated().map(|(i, v)| J::o(vec![
                    ("name", J::s(v.name.to_string())),
                    ("discr", discr.get(&i).map(|x| J::i(*x as i128)).unwrap_or(J::Null)),
                    ("fields", J::A(v.fields.iter().map(|f| J::A(vec![J::s(f.name.to_string()), J::s(ty_s(tcx.type_of(f.did).instantiate_identity().skip_normalization()))])).collect())),
                ])).collect();
                adts.push(J::o(vec![("path", J::s(path(tcx, did))), ("kind", J::s(if def.is_enum() { "enum" } else { "struct" })), ("sp", span_json(tcx, tcx.def_span(did))), ("pub", J::i(eff.is_reachable(ld) as i128)), ("variants", J::A(vars))]));
            }
            DefKind::Static { mutability, .. } => {
                let ty = tcx.type_of(did).instantiate_identity().skip_normalization();
                statics.push(J::o(vec![("path", J::s(path(tcx, did))), ("mut", J::i(mutability.is_mut() as i128)), ("ty", J::s(ty_s(ty))), ("freeze", J::i(ty.is_freeze(tcx, TypingEnv::fully_monomorphized()) as i128)), ("sp", span_json(tcx, tcx.def_span(did)))]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if tcx.generics_of(did).count() > 0 { continue; }
                let ty = tcx.type_of(did).instantiate_identity().skip_normalization();
                let mut o = vec![("path", J::s(path(tcx, did))), ("ty", J::s(ty_s(ty))), ("sp", span_json(tcx, tcx.def_span(did)))];
                if let Ok(cv) = tcx.const_eval_poly(did) {
                    // a dummy body is not needed for const_val
                    let env = TypingEnv::fully_monomorphized();
                    if let Some(v) = const_val_free(tcx, env, cv, ty) { o.push(("v", v)); }
                }
                consts.push(J::o(o));
            }
            DefKind::Impl { of_trait } => {
                let ty = ty_s(tcx.type_of(did).instantiate_identity().skip_normalization());
                let tr = if of_trait { J::s(path(tcx, tcx.impl_trait_ref(did).skip_binder().def_id)) } else { J::Null };
                let items: Vec<J> = tcx.associated_item_def_ids(did).iter().map(|d| J::s(path(tcx, *d))).collect();
                impls.push(J::o(vec![("self", J::s(ty)), ("trait", tr), ("items", J::A(items)), ("sp", span_json(tcx, tcx.def_span(did)))]));
            }
            _ => {}
        }
    }
    J::o(vec![
        ("rustc", J::s(rustc_interface::util::rustc_version_str().unwrap_or("?").to_string())),
        ("fns", J::A(fns)), ("adts", J::A(adts)), ("statics", J::A(statics)), ("consts", J::A(consts)), ("impls", J::A(impls)),
    ])
}

fn const_val_free<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, cv: ConstValue, ty: Ty<'tcx>) -> Option<J> {
    match cv {
        ConstValue::Scalar(s @ Scalar::Int(_)) => scalar_json(ty, s),
        ConstValue::Scalar(Scalar::Ptr(p, _)) => {
            let (prov, off) = p.into_raw_parts();
            if let ty::Ref(_, inner, _) = ty.kind() { read_val(tcx, env, *inner, prov.alloc_id(), off, 0) } else { None }
        }
        ConstValue::Slice { alloc_id, meta } => {
            if let ty::Ref(_, inner, _) = ty.kind() {
                if inner.is_str() { return read_str(tcx, alloc_id, Size::ZERO, meta); }
                if let ty::Slice(el) = inner.kind() {
                    let ell = tcx.layout_of(env.as_query_input(*el)).ok()?;
                    let mut v = vec![];
                    for i in 0..meta { v.push(read_val(tcx, env, *el, alloc_id, ell.size * i, 1)?); }
                    return Some(J::A(v));
                }
            }
            None
        }
        ConstValue::Indirect { alloc_id, offset } => read_val(tcx, env, ty, alloc_id, offset, 0),
        _ => None,
    }
}

#[allow(dead_code)]
fn _unused(_: LocalDefId) {}
