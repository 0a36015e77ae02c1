//! Serves the monomorphised MIR of the real code, one query per line on stdin, one JSON answer per line on stdout.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_const_eval::interpret::Projectable;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::io::{BufRead, Write};

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct S<'tcx> {
    tcx: TyCtxt<'tcx>,
    insts: Vec<Instance<'tcx>>,
    imap: HashMap<Instance<'tcx>, usize>,
    tys: Vec<Ty<'tcx>>,
    tmap: HashMap<Ty<'tcx>, usize>,
    defs: Vec<(DefId, GenericArgsRef<'tcx>)>,
}

const TE: fn() -> () = || ();

impl<'tcx> S<'tcx> {
    fn te(&self) -> TypingEnv<'tcx> { let _ = TE; TypingEnv::fully_monomorphized() }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.imap.get(&i) { return *x; }
        let n = self.insts.len();
        self.insts.push(i);
        self.imap.insert(i, n);
        n
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.tmap.get(&t) { return *x; }
        let n = self.tys.len();
        self.tys.push(t);
        self.tmap.insert(t, n);
        n
    }
    fn path(&self, d: DefId) -> String { with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))) }

    fn find(&self, path: &str) -> Option<DefId> {
        let segs: Vec<&str> = path.split("::").collect();
        let tcx = self.tcx;
        let only = segs[0].strip_prefix('#').map(|i| self.insts[i.parse::<usize>().unwrap()].def_id().krate);
        for c in tcx.crates(()) {
            if let Some(o) = only { if o != *c { continue; } } else if tcx.crate_name(*c).as_str() != segs[0] { continue; }
            let mut cur = vec![c.as_def_id()];
            for (k, s) in segs[1..].iter().enumerate() {
                let last = k == segs.len() - 2;
                let mut nxt = vec![];
                for m in &cur {
                    if tcx.def_kind(*m) != DefKind::Mod { continue; }
                    for ch in tcx.module_children(*m) {
                        if ch.ident.as_str() == *s {
                            if let Res::Def(k, d) = ch.res {
                                if last || k == DefKind::Mod { nxt.push(d); }
                            }
                        }
                    }
                }
                cur = nxt;
            }
            if let Some(d) = cur.first() { return Some(*d); }
        }
        None
    }
    fn list(&self, d: DefId, depth: usize, out: &mut Vec<String>) {
        if depth > 4 { return; }
        for ch in self.tcx.module_children(d) {
            if let Res::Def(k, c) = ch.res {
                out.push(js(&format!("{:?} {}", k, self.path(c))));
                if k == DefKind::Mod && c.krate == d.krate { self.list(c, depth + 1, out); }
            }
        }
    }

    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        Instance::try_resolve(self.tcx, self.te(), d, args).ok().flatten()
    }

    fn inst_desc(&mut self, id: usize) -> String {
        let i = self.insts[id];
        let tcx = self.tcx;
        let d = i.def_id();
        let mut f = vec![format!("\"id\":{}", id), format!("\"path\":{}", js(&self.path(d)))];
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".into(),
            InstanceKind::Virtual(_, n) => { f.push(format!("\"vidx\":{}", n)); "virtual".into() }
            InstanceKind::Shim(s) => match s {
                ShimKind::VTable(d) => { let x = self.inst(Instance::new_raw(d, i.args)); f.push(format!("\"under\":{}", x)); "shim_vtable".into() }
                ShimKind::Reify(d, _) => { let x = self.inst(Instance::new_raw(d, i.args)); f.push(format!("\"under\":{}", x)); "shim_reify".into() }
                ShimKind::FnPtr(..) => "shim_fnptr".into(),
                ShimKind::ClosureOnce { closure, .. } => {
                    let ca = i.args[0].expect_ty();
                    if let ty::Closure(_, a) = ca.kind() { let x = self.inst(Instance::new_raw(closure, a)); f.push(format!("\"under\":{}", x)); }
                    "shim_once".into()
                }
                ShimKind::DropGlue(..) => "shim_drop".into(),
                ShimKind::Clone(..) => "shim_clone".into(),
                _ => "shim_other".into(),
            },
        };
        f.push(format!("\"kind\":{}", js(&kind)));
        let isfn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
        if tcx.def_kind(d) == DefKind::AssocFn {
            if let Some(ai) = tcx.opt_associated_item(d) {
                if let Some(t) = ai.trait_item_def_id() { f.push(format!("\"trait\":{}", js(&self.path(t)))); }
                f.push(format!("\"name\":{}", js(ai.name().as_str())));
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) { f.push("\"ctor\":1".into()); }
        if tcx.is_closure_like(d) { f.push("\"closure\":1".into()); }
        let mut a = vec![];
        for g in i.args.iter() { if let Some(t) = g.as_type() { a.push(self.ty(t).to_string()); } }
        f.push(format!("\"args\":{}", jl(a)));
        let crate_ = tcx.crate_name(d.krate).to_string();
        f.push(format!("\"crate\":{}", js(&crate_)));
        if isfn {
            let body = match i.def { InstanceKind::Item(d) => tcx.is_mir_available(d), InstanceKind::Shim(_) => true, _ => false };
            f.push(format!("\"body\":{}", body as u8));
        }
        let sp = tcx.def_span(d);
        let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
        f.push(format!("\"loc\":{}", js(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))));
        format!("{{{}}}", f.join(","))
    }

    fn ty_desc(&mut self, id: usize) -> String {
        let t = self.tys[id];
        let tcx = self.tcx;
        let name = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let mut f = vec![format!("\"n\":{}", js(&name))];
        match *t.kind() {
            ty::Bool => f.push("\"k\":\"bool\"".into()),
            ty::Char => f.push("\"k\":\"char\"".into()),
            ty::Int(it) => f.push(format!("\"k\":\"int\",\"bits\":{},\"signed\":true", it.bit_width().unwrap_or(64))),
            ty::Uint(it) => f.push(format!("\"k\":\"int\",\"bits\":{},\"signed\":false", it.bit_width().unwrap_or(64))),
            ty::Float(_) => f.push("\"k\":\"float\"".into()),
            ty::Str => f.push("\"k\":\"str\"".into()),
            ty::Never => f.push("\"k\":\"never\"".into()),
            ty::Slice(e) => { let e = self.ty(e); f.push(format!("\"k\":\"slice\",\"e\":{}", e)) }
            ty::Array(e, n) => {
                let e = self.ty(e);
                f.push(format!("\"k\":\"array\",\"e\":{},\"len\":{}", e, n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1)))
            }
            ty::Ref(_, e, m) => { let e = self.ty(e); f.push(format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut())) }
            ty::RawPtr(e, m) => { let e = self.ty(e); f.push(format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut())) }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                f.push(format!("\"k\":\"tuple\",\"f\":{}", jl(v)))
            }
            ty::Adt(def, args) => {
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                f.push(format!("\"k\":{},\"p\":{}", js(k), js(&self.path(def.did()))));
                f.push(format!("\"crate\":{}", js(tcx.crate_name(def.did().krate).as_str())));
                let mut a = vec![];
                for g in args.iter() { if let Some(t) = g.as_type() { a.push(self.ty(t).to_string()); } }
                f.push(format!("\"args\":{}", jl(a)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for fd in v.fields.iter() {
                        let ft = fd.ty(tcx, args);
                        let ft = tcx.normalize_erasing_regions(self.te(), ft);
                        let x = self.ty(ft);
                        fs.push(format!("[{},{}]", js(fd.name.as_str()), x));
                    }
                    let disc = if def.is_enum() { t.discriminant_for_variant(tcx, vi).map(|d| d.val).unwrap_or(0) } else { 0 };
                    let ck = match v.ctor_kind() { Some(rustc_hir::def::CtorKind::Fn) => "t", Some(rustc_hir::def::CtorKind::Const) => "u", None => "s" };
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"c\":\"{}\",\"f\":{}}}", js(v.name.as_str()), disc, ck, jl(fs)));
                }
                f.push(format!("\"v\":{}", jl(vs)));
            }
            ty::Closure(d, args) => {
                let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                f.push(format!("\"k\":\"closure\",\"p\":{},\"f\":{}", js(&self.path(d)), jl(v)));
                let i = Instance::resolve_closure(tcx, d, args, args.as_closure().kind());
                let i = self.inst(i);
                f.push(format!("\"inst\":{}", i));
            }
            ty::FnDef(d, args) => {
                f.push(format!("\"k\":\"fndef\",\"p\":{}", js(&self.path(d))));
                let args = args.no_bound_vars().unwrap();
                if let Some(i) = self.resolve(d, args) { let i = self.inst(i); f.push(format!("\"inst\":{}", i)); }
            }
            ty::FnPtr(..) => f.push("\"k\":\"fnptr\"".into()),
            ty::Dynamic(p, _) => {
                let s = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                f.push(format!("\"k\":\"dyn\",\"p\":{}", js(&s)))
            }
            _ => f.push("\"k\":\"other\"".into()),
        }
        format!("{{{}}}", f.join(","))
    }

    // ---------------------------------------------------------------- constants
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        match *t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                return match self.resolve(d, args) {
                    Some(i) => { let i = self.inst(i); format!("[\"k\",{},{{\"fn\":{}}}]", tid, i) }
                    None => format!("[\"k\",{},{{\"unres\":{}}}]", tid, js(&self.path(d))),
                };
            }
            _ => {}
        }
        if let rustc_middle::mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if p.as_usize() >= self.tcx.promoted_mir(u.def).len() { return format!("[\"k\",{},{{\"err\":2}}]", tid); }
            }
        }
        let v = match c.const_.eval(self.tcx, self.te(), DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return format!("[\"k\",{},{{\"err\":1}}]", tid),
        };
        let tree = self.cval(v, t);
        format!("[\"k\",{},{}]", tid, tree)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        if let ConstValue::ZeroSized = v {
            if let ty::Tuple(ts) = t.kind() { if ts.is_empty() { return "{\"f\":[]}".into(); } }
        }
        let r = rustc_const_eval::const_eval::mk_eval_cx_for_const_val(self.tcx.at(DUMMY_SP), self.te(), v, t);
        match r {
            Some((ecx, op)) => self.opval(&ecx, &op, 0),
            None => "{\"opaque\":1}".into(),
        }
    }
    fn opval(&mut self, ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>, op: &rustc_const_eval::interpret::OpTy<'tcx>, depth: usize) -> String {
        let t = op.layout.ty;
        let opaque = "{\"opaque\":1}".to_string();
        if depth > 24 { return opaque; }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => match ecx.read_scalar(op).discard_err() {
                Some(s) => match s.try_to_scalar_int() { Ok(si) => format!("{{\"i\":\"{}\"}}", si.to_bits_unchecked()), Err(_) => opaque },
                None => opaque,
            },
            ty::Int(_) => match ecx.read_scalar(op).discard_err() {
                Some(s) => match s.try_to_scalar_int() { Ok(si) => format!("{{\"i\":\"{}\"}}", si.to_int(si.size())), Err(_) => opaque },
                None => opaque,
            },
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                if matches!(e.kind(), ty::Dynamic(..)) { return opaque; }
                let m = match ecx.deref_pointer(op).discard_err() { Some(m) => m, None => return opaque };
                match *e.kind() {
                    ty::Str => match ecx.read_str(&m).discard_err() { Some(s) => format!("{{\"s\":{}}}", js(s)), None => opaque },
                    _ => {
                        let tid = self.ty(e);
                        let o: rustc_const_eval::interpret::OpTy<'tcx> = m.into();
                        format!("{{\"r\":{},\"rt\":{}}}", self.opval(ecx, &o, depth + 1), tid)
                    }
                }
            }
            ty::Slice(_) | ty::Array(..) => {
                let n = match op.len(ecx).discard_err() { Some(n) => n, None => return opaque };
                if n > 4096 { return opaque; }
                let mut v = vec![];
                for k in 0..n {
                    match ecx.project_index(op, k).discard_err() { Some(x) => v.push(self.opval(ecx, &x, depth + 1)), None => return opaque }
                }
                format!("{{\"l\":{}}}", jl(v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for k in 0..ts.len() {
                    match ecx.project_field(op, FieldIdx::from_usize(k)).discard_err() { Some(x) => v.push(self.opval(ecx, &x, depth + 1)), None => return opaque }
                }
                format!("{{\"f\":{}}}", jl(v))
            }
            ty::Closure(_, args) => {
                let mut v = vec![];
                for k in 0..args.as_closure().upvar_tys().len() {
                    match ecx.project_field(op, FieldIdx::from_usize(k)).discard_err() { Some(x) => v.push(self.opval(ecx, &x, depth + 1)), None => return opaque }
                }
                format!("{{\"f\":{}}}", jl(v))
            }
            ty::Adt(def, _) => {
                if def.is_union() { return opaque; }
                if def.variants().is_empty() { return opaque; }
                let (vi, down) = if def.is_enum() {
                    let vi = match ecx.read_discriminant(op).discard_err() { Some(v) => v, None => return opaque };
                    match ecx.project_downcast(op, vi).discard_err() { Some(d) => (vi, d), None => return opaque }
                } else { (VariantIdx::from_u32(0), op.clone()) };
                let mut v = vec![];
                for k in 0..def.variants()[vi].fields.len() {
                    match ecx.project_field(&down, FieldIdx::from_usize(k)).discard_err() { Some(x) => v.push(self.opval(ecx, &x, depth + 1)), None => return opaque }
                }
                format!("{{\"v\":{},\"f\":{}}}", vi.as_u32(), jl(v))
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                match self.resolve(d, args) { Some(i) => { let i = self.inst(i); format!("{{\"fn\":{}}}", i) } None => opaque }
            }
            ty::FnPtr(..) => {
                if let Some(s) = ecx.read_pointer(op).discard_err() {
                    if let (Some(prov), _) = s.into_raw_parts() {
                        use rustc_middle::mir::interpret::GlobalAlloc;
                        if let Some(GlobalAlloc::Function { instance, .. }) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                            let i = self.inst(instance);
                            return format!("{{\"fn\":{}}}", i);
                        }
                    }
                }
                opaque
            }
            _ => opaque,
        }
    }
    // ---------------------------------------------------------------- bodies
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_u32(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end as u8),
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_u32()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::PhantomDeref | ProjectionElem::UnwrapUnsafeBinder(_) => "[\"oc\"]".into(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), jl(pr))
    }
    fn oper(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => { let t = self.ty(p.ty(&b.local_decls, self.tcx).ty); format!("[\"c\",{},{}]", t, self.place(p)) }
            Operand::Move(p) => { let t = self.ty(p.ty(&b.local_decls, self.tcx).ty); format!("[\"m\",{},{}]", t, self.place(p)) }
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => { let t = self.ty(self.tcx.types.bool); format!("[\"k\",{},{{\"i\":\"0\"}}]", t) }
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.oper(b, o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.oper(b, o), n.try_to_target_usize(self.tcx).unwrap_or(0)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m as u8, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ft = match o { Operand::Copy(p) | Operand::Move(p) => p.ty(&b.local_decls, self.tcx).ty, Operand::Constant(c) => c.const_.ty(), _ => self.tcx.types.bool };
                // closures coerced to fn pointers
                if let (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _), ty::Closure(d, a)) = (k, ft.kind()) {
                    let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                    let i = self.inst(i);
                    return format!("[\"closfn\",{}]", i);
                }
                if let (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _), ty::FnDef(d, a)) = (k, ft.kind()) {
                    if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, self.te(), *d, a.no_bound_vars().unwrap()) {
                        let i = self.inst(i);
                        return format!("[\"closfn\",{}]", i);
                    }
                }
                let ks = format!("{:?}", k);
                let a = self.ty(*t); let f = self.ty(ft);
                format!("[\"cast\",{},{},{},{}]", js(&ks), self.oper(b, o), f, a)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = self.opty(b, &ab.0);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), self.oper(b, &ab.0), self.oper(b, &ab.1), t)
            }
            Rvalue::UnaryOp(op, a) => { let t = self.opty(b, a); format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.oper(b, a), t) }
            Rvalue::Discriminant(p) => { let t = self.ty(p.ty(&b.local_decls, self.tcx).ty); format!("[\"disc\",{},{}]", self.place(p), t) }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.oper(b, o)).collect();
                let o = jl(o);
                match **k {
                    AggregateKind::Array(t) => { let t = self.ty(t); format!("[\"agg\",\"arr\",{},0,{}]", t, o) }
                    AggregateKind::Tuple => format!("[\"agg\",\"tup\",0,0,{}]", o),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        if af.is_some() { return format!("[\"agg\",\"union\",{},{},{}]", t, af.unwrap().as_u32(), o); }
                        format!("[\"agg\",\"adt\",{},{},{}]", t, v.as_u32(), o)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d, args);
                        let t = self.ty(t);
                        format!("[\"agg\",\"clo\",{},0,{}]", t, o)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"ptr\",0,0,{}]", o),
                    _ => format!("[\"agg\",\"other\",0,0,{}]", o),
                }
            }
            Rvalue::CopyForDeref(p) => { let t = self.ty(p.ty(&b.local_decls, self.tcx).ty); format!("[\"use\",[\"c\",{},{}]]", t, self.place(p)) }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.oper(b, o)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(p)),
        }
    }
    fn opty(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> usize {
        let t = match o { Operand::Copy(p) | Operand::Move(p) => p.ty(&b.local_decls, self.tcx).ty, Operand::Constant(c) => c.const_.ty(), _ => self.tcx.types.bool };
        self.ty(t)
    }
    fn body(&mut self, id: usize) -> String {
        let i = self.insts[id];
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => if !tcx.is_mir_available(d) { return format!("{{\"err\":{}}}", js(&format!("no mir for {}", self.path(d)))); },
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => return "{\"err\":\"no body\"}".into(),
            InstanceKind::Shim(_) => {}
        }
        let b0 = tcx.instance_mir(i.def);
        let b: mir::Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.te(), ty::EarlyBinder::bind(tcx, b0.clone()));
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(pr) => st.push(format!("[\"a\",{},{}]", self.place(&pr.0), self.rvalue(&b, &pr.1))),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_u32())),
                    StatementKind::Intrinsic(n) => match &**n {
                        NonDivergingIntrinsic::Assume(o) => st.push(format!("[\"as\",{}]", self.oper(&b, o))),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(format!("[\"cno\",{},{},{}]", self.oper(&b, &c.src), self.oper(&b, &c.dst), self.oper(&b, &c.count))),
                    },
                    _ => {}
                }
            }
            let t = match &bb.terminator().kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32())).collect();
                    let ty = self.opty(&b, discr);
                    format!("[\"sw\",{},{},{},{}]", self.oper(&b, discr), ty, jl(tv), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unw\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!("[\"assert\",{},{},{},{}]", self.oper(&b, cond), *expected as u8, target.as_u32(), js(&format!("{:?}", msg).chars().take(60).collect::<String>())),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.oper(&b, &x.node)).collect();
                    let mut fallback = "null".to_string();
                    if let Operand::Constant(c) = func {
                        if let ty::FnDef(d, _) = c.const_.ty().kind() {
                            let tr = tcx.trait_of_assoc(*d).map(|t| js(&self.path(t))).unwrap_or("null".into());
                            let mut df = -1i64;
                            if tcx.trait_of_assoc(*d).is_some() && tcx.is_mir_available(*d) {
                                if let ty::FnDef(_, a) = c.const_.ty().kind() { let i = Instance::new_raw(*d, a.no_bound_vars().unwrap()); df = self.inst(i) as i64; }
                            }
                            fallback = format!("{{\"p\":{},\"tr\":{},\"df\":{}}}", js(&self.path(*d)), tr, df);
                        }
                    }
                    let lo = tcx.sess.source_map().lookup_char_pos(fn_span.lo());
                    format!("[\"call\",{},{},{},{},{},{}]", self.oper(&b, func), jl(a), self.place(destination), target.map(|t| t.as_u32() as i64).unwrap_or(-1), fallback, lo.line)
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.oper(&b, &x.node)).collect();
                    format!("[\"tail\",{},{}]", self.oper(&b, func), jl(a))
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"unsupported\"]".into(),
            };
            blocks.push(format!("[{},{}]", jl(st), t));
        }
        format!("{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{}}}", jl(locals), b.arg_count, b.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1), jl(blocks))
    }

    fn serve(&mut self) {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout().lock();
        let mut line = String::new();
        let mut inp = stdin.lock();
        loop {
            line.clear();
            if inp.read_line(&mut line).unwrap_or(0) == 0 { break; }
            let w: Vec<&str> = line.trim().split(' ').collect();
            let n = |k: usize| w.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
            let ans = match w[0] {
                "find" => match self.find(w[1]) {
                    Some(d) => {
                        let k = format!("{:?}", self.tcx.def_kind(d));
                        if k == "Fn" {
                            let args = ty::GenericArgs::for_item(self.tcx, d, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(), _ => self.tcx.types.unit.into() });
                            match self.resolve(d, args) { Some(i) => { let i = self.inst(i); format!("{{\"inst\":{}}}", i) } None => "{}".into() }
                        } else if k == "Struct" || k == "Enum" {
                            let args = ty::GenericArgs::for_item(self.tcx, d, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(), _ => self.tcx.types.unit.into() });
                            let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                            let t = self.ty(t); format!("{{\"ty\":{}}}", t)
                        } else { format!("{{\"kind\":{}}}", js(&k)) }
                    }
                    None => "{}".into(),
                },
                "list" => { let mut o = vec![]; if let Some(d) = self.find(w[1]) { self.list(d, 0, &mut o); } jl(o) }
                "sig" => {
                    let i = self.insts[n(1)];
                    let d = i.def_id();
                    let sig = self.tcx.fn_sig(d).instantiate(self.tcx, i.args).skip_norm_wip();
                    let sig = self.tcx.normalize_erasing_late_bound_regions(self.te(), sig);
                    let v: Vec<String> = sig.inputs_and_output.iter().map(|t| self.ty(t).to_string()).collect();
                    jl(v)
                }
                "inst" => self.inst_desc(n(1)),
                "ty" => self.ty_desc(n(1)),
                "body" => self.body(n(1)),
                "optty" => { // Option<ty>
                    let d = self.tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Option, DUMMY_SP);
                    let t = self.tys[n(1)];
                    let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), self.tcx.mk_args(&[t.into()]));
                    self.ty(t).to_string()
                }
                "virt" => {
                    let i = self.insts[n(1)];
                    let t = self.tys[n(2)];
                    let tcx = self.tcx;
                    let args = tcx.mk_args_from_iter(std::iter::once(ty::GenericArg::from(t)).chain(i.args.iter().skip(1)));
                    match self.resolve(i.def_id(), args) { Some(x) => { let x = self.inst(x); format!("{{\"inst\":{}}}", x) } None => "{}".into() }
                }
                "trm" => { // trm <trait path> <method> <self ty> [<more type args>...]
                    let mut ans = "{}".to_string();
                    if let Some(d) = self.find(w[1]) {
                        let m = self.tcx.associated_items(d).in_definition_order().find(|a| a.opt_name().map(|n| n.as_str() == w[2]).unwrap_or(false)).map(|a| a.def_id);
                        if let Some(m) = m {
                            let mut extra: Vec<usize> = w[3..].iter().map(|x| x.parse().unwrap()).collect();
                            extra.reverse();
                            let tys: Vec<Ty<'tcx>> = extra.iter().map(|k| self.tys[*k]).collect();
                            let mut tys = tys;
                            let args = ty::GenericArgs::for_item(self.tcx, m, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(), _ => tys.pop().unwrap_or(self.tcx.types.unit).into() });
                            if let Some(i) = self.resolve(m, args) { let i = self.inst(i); ans = format!("{{\"inst\":{}}}", i); }
                        }
                    }
                    ans
                }
                _ => "{\"err\":\"bad request\"}".into(),
            };
            let _ = writeln!(out, "{}", ans);
            let _ = out.flush();
        }
        let _ = &self.defs;
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) { c.opts.incremental = None; }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut s = S { tcx, insts: vec![], imap: Default::default(), tys: vec![], tmap: Default::default(), defs: vec![] };
        s.serve();
        Compilation::Stop
    }
}

fn main() {
    let f = std::env::args().nth(1).expect("args file");
    let raw = std::fs::read(f).unwrap();
    let mut args: Vec<String> = raw.split(|b| *b == 0).filter(|x| !x.is_empty()).map(|x| String::from_utf8_lossy(x).into_owned()).collect();
    args.retain(|a| !a.starts_with("--error-format") && !a.starts_with("--json"));
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
    std::process::exit(0);
}
