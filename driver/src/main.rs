// A rustc_private driver: compiles a crate with the compiler's own front end and writes the
// type-checked program (MIR of every body, resolved callees, impl table, type definitions)
// as JSON.  It never generates code and runs nothing.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let t = self.tcx;
        let s = t.def_path_str(d);
        let k = t.crate_name(d.krate);
        if d.is_local() { format!("{}::{}", k, s) } else { s }
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", name, lo.line))
    }
    fn cnst(&self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) { return format!("{}", v); }
        match c.kind() {
            ty::ConstKind::Param(p) => esc(p.name.as_str()),
            _ => esc(&format!("{:?}", c)),
        }
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        list(a.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t)),
            ty::GenericArgKind::Const(c) => Some(format!("{{\"k\":\"cst\",\"v\":{}}}", self.cnst(c))),
            _ => None,
        }))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", i.name_str()),
            ty::Uint(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", i.name_str()),
            ty::Float(i) => format!("{{\"k\":\"float\",\"n\":\"{}\"}}", i.name_str()),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Adt(d, a) => format!("{{\"k\":\"adt\",\"path\":{},\"args\":{}}}", esc(&self.path(d.did())), self.args(a)),
            ty::Array(e, n) => format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", self.ty(*e), self.cnst(*n)),
            ty::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(*e)),
            ty::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(*e), m.is_mut()),
            ty::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(*e), m.is_mut()),
            ty::FnDef(..) => {
                format!("{{\"k\":\"fndef\",\"dbg\":{},\"f\":{}}}", esc(&format!("{}", t)), self.fndef(t, None))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"dbg\":{}}}", esc(&format!("{}", t))),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"dbg\":{}}}", esc(&format!("{}", t))),
            ty::Closure(d, a) => {
                let ca = a.as_closure();
                format!("{{\"k\":\"closure\",\"path\":{},\"args\":{},\"up\":{}}}", esc(&self.path(*d)),
                    list(ca.parent_args().iter().filter_map(|g| g.as_type().map(|t| self.ty(t)))),
                    list(ca.upvar_tys().iter().map(|t| self.ty(t))))
            }
            ty::Tuple(ts) => format!("{{\"k\":\"tuple\",\"e\":{}}}", list(ts.iter().map(|t| self.ty(t)))),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"dbg\":{},\"a\":{}}}", esc(&format!("{}", t)), self.alias(t)),
            _ => format!("{{\"k\":\"other\",\"dbg\":{}}}", esc(&format!("{}", t))),
        }
    }
    fn alias(&self, t: Ty<'tcx>) -> String {
        if let ty::Alias(_, a) = t.kind() {
            let (k, d): (&str, Option<DefId>) = match a.kind {
                ty::AliasTyKind::Projection { def_id } => ("proj", Some(def_id.into())),
                ty::AliasTyKind::Opaque { def_id } => ("opaque", Some(def_id.into())),
                _ => ("other", None),
            };
            return format!("{{\"ak\":\"{}\",\"path\":{},\"args\":{}}}", k, d.map(|d| esc(&self.path(d))).unwrap_or("null".into()), self.args(a.args));
        }
        "null".into()
    }
    fn fndef(&self, t: Ty<'tcx>, env: Option<TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        if let ty::FnDef(d, a) = t.kind() {
            let d: DefId = (*d).into();
            let a = a.skip_binder();
            let mut o = format!("{{\"path\":{},\"args\":{}", esc(&self.path(d)), self.args(a));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let _ = write!(o, ",\"impl_self\":{}", self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
            }
            if let Some(env) = env {
                let a2 = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a2) {
                    if i.def_id() != d {
                        let _ = write!(o, ",\"rpath\":{},\"rargs\":{},\"rkind\":{}", esc(&self.path(i.def_id())), self.args(i.args), esc(&format!("{:?}", i.def).split('(').next().unwrap_or("")));
                    }
                }
            }
            o.push('}');
            return o;
        }
        "null".into()
    }
    fn place(&self, p: &Place<'tcx>) -> String {
        let proj = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "[\"deref\"]".to_string(),
            ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_usize()),
            x => format!("[\"other\",{}]", esc(&format!("{:?}", x))),
        }));
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), proj)
    }
    fn operand(&self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.constant(&c.const_, c.span, env)),
            _ => "{\"c\":{\"k\":\"rtc\"}}".to_string(),
        }
    }
    fn constant(&self, c: &mir::Const<'tcx>, sp: Span, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tys = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"k\":\"fn\",\"f\":{}}}", self.fndef(t, Some(env)));
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"path\":{},\"i\":{},\"args\":{},\"ty\":{}}}", esc(&self.path(u.def)), p.as_usize(), self.args(u.args), tys);
            }
            let mut val = String::from("null");
            if let Ok(v) = c.eval(tcx, env, sp) { if let Some(s) = self.scalar(v, t) { val = s; } }
            return format!("{{\"k\":\"const\",\"path\":{},\"args\":{},\"ty\":{},\"v\":{}}}", esc(&self.path(u.def)), self.args(u.args), tys, val);
        }
        if let mir::Const::Ty(_, cc) = c {
            return format!("{{\"k\":\"tyc\",\"v\":{},\"ty\":{}}}", self.cnst(*cc), tys);
        }
        if let Ok(v) = c.eval(tcx, env, sp) {
            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                let (prov, off) = p.prov_and_relative_offset();
                if off.bytes() == 0 {
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if d.is_local() && !tcx.is_mutable_static(d) && st.is_freeze(tcx, env) {
                            return format!("{{\"k\":\"static\",\"path\":{},\"ty\":{}}}", esc(&self.path(d)), tys);
                        }
                    }
                }
            }
            if let Some(s) = self.scalar(v, t) {
                return format!("{{\"k\":\"val\",\"v\":{},\"ty\":{}}}", s, tys);
            }
        }
        format!("{{\"k\":\"opaque\",\"dbg\":{},\"ty\":{}}}", esc(&format!("{}", c)), tys)
    }
    fn scalar(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => Some("\"zst\"".into()),
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                // byte string literals
                let ty::Ref(_, inner, _) = t.kind() else { return None };
                let ty::Array(e, n) = inner.kind() else { return None };
                if *e != tcx.types.u8 { return None; }
                let n = n.try_to_target_usize(tcx)? as usize;
                let (prov, off) = p.prov_and_relative_offset();
                let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) else { return None };
                let o = off.bytes() as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                Some(format!("{{\"bytes\":{}}}", list(b.iter().map(|x| x.to_string()))))
            }
            ConstValue::Scalar(s) => {
                let i = s.try_to_scalar_int().ok()?;
                let sz = i.size();
                match t.kind() {
                    ty::Bool => Some(format!("{}", i.to_bits(sz) != 0)),
                    ty::Char => Some(format!("{}", i.to_bits(sz))),
                    ty::Uint(_) => Some(format!("{}", i.to_bits(sz))),
                    ty::Int(_) => Some(format!("{}", i.to_int(sz))),
                    ty::Float(ty::FloatTy::F64) => Some(esc(&format!("{:e}", f64::from_bits(i.to_bits(sz) as u64)))),
                    ty::Float(ty::FloatTy::F32) => Some(esc(&format!("{:e}", f32::from_bits(i.to_bits(sz) as u32)))),
                    _ => None,
                }
            }
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                        return Some(esc(&String::from_utf8_lossy(b)));
                    }
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    return Some(format!("{{\"bytes\":{}}}", list(b.iter().map(|x| x.to_string()))));
                }
                None
            }
            _ => None,
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(o, env);
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", op(o)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", op(o), self.cnst(*n)),
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"m\":true,\"raw\":true,\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"from\":{},\"t\":{}}}", esc(&format!("{:?}", k)), op(o), self.ty(o.ty(&body.local_decls, self.tcx)), self.ty(*t)),
            Rvalue::BinaryOp(b, x) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"t\":{}}}", esc(&format!("{:?}", b)), op(&x.0), op(&x.1), self.ty(x.0.ty(&body.local_decls, self.tcx))),
            Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":{},\"a\":{},\"t\":{}}}", esc(&format!("{:?}", u)), op(o), self.ty(o.ty(&body.local_decls, self.tcx))),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"disc\",\"p\":{},\"t\":{}}}", self.place(p), self.ty(p.ty(&body.local_decls, self.tcx).ty)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("\"ak\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => format!("\"ak\":\"adt\",\"path\":{},\"v\":{},\"args\":{}", esc(&self.path(*d)), v.as_usize(), self.args(a)),
                    AggregateKind::Closure(d, a) => format!("\"ak\":\"closure\",\"path\":{},\"args\":{}", esc(&self.path(*d)),
                        list(a.as_closure().parent_args().iter().filter_map(|g| g.as_type().map(|t| self.ty(t))))),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", ks, list(ops.iter().map(|o| op(o))))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"k\":\"ref\",\"m\":{},\"rb\":true,\"p\":{}}}", m.is_mut(), self.place(p)),
            x => format!("{{\"k\":\"other\",\"dbg\":{}}}", esc(&format!("{:?}", x))),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = Some(v.name.to_string()); }
            }
        }
        let locals = list(body.local_decls.iter_enumerated().map(|(i, l)| {
            format!("{{\"t\":{},\"n\":{}}}", self.ty(l.ty), names[i.as_usize()].as_ref().map(|s| esc(s)).unwrap_or("null".into()))
        }));
        let blocks = list(body.basic_blocks.iter().map(|b| {
            let stmts = list(b.statements.iter().filter_map(|s| match &s.kind {
                StatementKind::Assign(x) => Some(format!("{{\"k\":\"a\",\"p\":{},\"r\":{},\"s\":{}}}", self.place(&x.0), self.rvalue(&x.1, env, body), self.span(s.source_info.span))),
                StatementKind::SetDiscriminant { place, variant_index } => Some(format!("{{\"k\":\"sd\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_usize())),
                StatementKind::Intrinsic(i) => Some(format!("{{\"k\":\"intr\",\"dbg\":{}}}", esc(&format!("{:?}", i)))),
                _ => None,
            }));
            let t = b.terminator();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => format!("\"k\":\"switch\",\"d\":{},\"dt\":{},\"ts\":{},\"else\":{}", self.operand(discr, env),
                    self.ty(discr.ty(&body.local_decls, self.tcx)),
                    list(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize()))), targets.otherwise().as_usize()),
                TerminatorKind::Return => "\"k\":\"return\"".to_string(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"k\":\"resume\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("\"k\":\"drop\",\"p\":{},\"t\":{}", self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => format!("\"k\":\"call\",\"f\":{},\"a\":{},\"at\":{},\"d\":{},\"dt\":{},\"t\":{}",
                    self.operand(func, env), list(args.iter().map(|a| self.operand(&a.node, env))),
                    list(args.iter().map(|a| self.ty(a.node.ty(&body.local_decls, self.tcx)))), self.place(destination),
                    self.ty(destination.ty(&body.local_decls, self.tcx).ty),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, env), self.operand(index, env)]),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![self.operand(o, env)]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![self.operand(o, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"mo\":{},\"t\":{}", self.operand(cond, env), expected, esc(&mk), list(ops), target.as_usize())
                }
                x => format!("\"k\":\"other\",\"dbg\":{}", esc(&format!("{:?}", x))),
            };
            format!("{{\"st\":{},\"cl\":{},\"te\":{{{},\"s\":{}}}}}", stmts, b.is_cleanup, ts, self.span(t.source_info.span))
        }));
        format!("\"argc\":{},\"locals\":{},\"blocks\":{},\"span\":{},\"spread\":{}", body.arg_count, locals, blocks, self.span(body.span),
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()))
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        let mut stack = vec![g];
        while let Some(p) = stack.last().unwrap().parent { stack.push(self.tcx.generics_of(p)); }
        for g in stack.iter().rev() {
            for p in &g.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    _ => v.push(esc(p.name.as_str())),
                }
            }
        }
        list(v)
    }
    fn preds(&self, d: DefId) -> String {
        let p = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        list(p.clauses.iter().map(|c| esc(&format!("{:?}", c))))
    }
}


struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let cx = Cx { tcx };
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let (kind, body): (&str, &Body<'tcx>) = match dk {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => ("const", tcx.mir_for_ctfe(*ld)),
                DefKind::Ctor(..) => ("ctor", tcx.optimized_mir(d)),
                _ => continue,
            };
            let prom = list(tcx.promoted_mir(d).iter().map(|b| format!("{{{}}}", cx.body(b, env))));
            let mut extra = String::new();
            if let Some(im) = tcx.impl_of_assoc(d) {
                let _ = write!(extra, ",\"impl_self\":{}", cx.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip()));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(extra, ",\"impl_trait\":{},\"impl_trait_args\":{}", esc(&cx.path(tr.def_id)), cx.args(tr.args));
                }
                let _ = write!(extra, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(extra, ",\"in_trait\":{},\"name\":{}", esc(&cx.path(tr)), esc(tcx.item_name(d).as_str()));
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(extra, ",\"vis\":{}", tcx.visibility(d).is_public());
            }
            bodies.push(format!("{{\"path\":{},\"kind\":\"{}\",\"generics\":{},\"preds\":{}{},{},\"promoted\":{}}}", esc(&cx.path(d)), kind, cx.generics(d), cx.preds(d), extra, cx.body(body, env), prom));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let vs = list(a.variants().iter_enumerated().map(|(i, v)| {
                        let disc = if a.is_enum() { format!("{}", a.discriminant_for_variant(tcx, i).val) } else { "0".into() };
                        format!("{{\"name\":{},\"disc\":{},\"fields\":{}}}", esc(v.name.as_str()), disc, list(v.fields.iter().map(|f|
                            format!("{{\"n\":{},\"t\":{},\"vis\":{}}}", esc(f.name.as_str()), cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), f.vis.is_public()))))
                    }));
                    adts.push(format!("{{\"path\":{},\"kind\":\"{:?}\",\"generics\":{},\"variants\":{},\"span\":{}}}", esc(&cx.path(d)), tcx.def_kind(d), cx.generics(d), vs, cx.span(tcx.def_span(d))));
                }
                DefKind::Impl { .. } => {
                    let st = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    let mut tr = "null".to_string();
                    let mut ta = "[]".to_string();
                    if let Some(t) = tcx.impl_opt_trait_ref(d) {
                        let t = t.instantiate_identity().skip_norm_wip();
                        tr = esc(&cx.path(t.def_id));
                        ta = cx.args(t.args);
                    }
                    let its = list(tcx.associated_items(d).in_definition_order().filter_map(|a| {
                        if matches!(a.kind, ty::AssocKind::Fn { .. } | ty::AssocKind::Const { .. }) { Some(format!("[{},{}]", esc(a.name().as_str()), esc(&cx.path(a.def_id)))) } else { None }
                    }));
                    let tys = list(tcx.associated_items(d).in_definition_order().filter_map(|a| {
                        if matches!(a.kind, ty::AssocKind::Type { .. }) && !a.is_impl_trait_in_trait() { Some(format!("[{},{}]", esc(a.name().as_str()), cx.ty(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip()))) } else { None }
                    }));
                    let der = tcx.is_automatically_derived(d);
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"targs\":{},\"items\":{},\"types\":{},\"generics\":{},\"preds\":{},\"derived\":{}}}", st, tr, ta, its, tys, cx.generics(d), cx.preds(d), der));
                }
                _ => {}
            }
        }
        let out = format!("{{\"crate\":{},\"bodies\":{},\"adts\":{},\"impls\":{}}}", esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()), list(bodies), list(adts), list(impls));
        std::fs::write(&self.out, out).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let mut name = String::new();
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" { name = args.get(i + 1).cloned().unwrap_or_default(); }
    }
    let ctype_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    if want.split(',').any(|w| w == name) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("-Awarnings".into());
        let suf = if ctype_bin { "_bin" } else { "" };
        let mut cb = Cb { out: format!("{}/{}{}.json", dir, name, suf) };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
