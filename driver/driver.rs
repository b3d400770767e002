// MIR exporter: a rustc driver that behaves exactly like rustc for every crate but the
// one named in WT_CRATE; for that crate it writes a resolved, elaborated dump of the
// program (every local body, plus the std/core instances those bodies reach and that
// the analyser may look through) to WT_OUT as JSON and then continues as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Upcast, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    inst_ids: HashMap<(Instance<'tcx>, ty::ParamEnv<'tcx>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    out: Vec<String>,
    coroutines: HashMap<DefId, Body<'tcx>>,
}

// std modules whose bodies the analyser may look through
const TRANSPARENT: &[&str] = &[
    "std::option", "std::result", "std::task", "std::ops", "std::pin", "std::cmp",
    "std::convert", "std::borrow", "std::iter", "std::clone", "std::mem", "std::bool",
    "std::array", "std::slice", "std::num", "std::default", "std::tuple",
    "std::ptr", "std::hint", "std::future", "std::cell::once", "std::bool", "bool::", "<bool",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)));
        p
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        format!("{}:{}", f, lo.line)
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(format!("{t}")))
    }
    fn ty(&mut self, t: Ty<'tcx>, te: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let s = self.tystr(t);
        let mut o = format!("{{\"s\":{}", js(&s));
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\",\"w\":8"),
            ty::Char => o.push_str(",\"k\":\"char\",\"w\":32"),
            ty::Int(i) => {
                let w = i.bit_width().map(|x| x as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"int\",\"w\":{w}");
            }
            ty::Uint(i) => {
                let w = i.bit_width().map(|x| x as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"uint\",\"w\":{w}");
            }
            ty::Float(f) => {
                let _ = write!(o, ",\"k\":\"float\",\"w\":{}", f.bit_width());
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner, te);
                let _ = write!(o, ",\"k\":\"ref\",\"t\":{i},\"mut\":{}", m.is_mut());
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner, te);
                let _ = write!(o, ",\"k\":\"ptr\",\"t\":{i},\"mut\":{}", m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, te).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"ts\":{}", arr(v));
            }
            ty::Array(inner, n) => {
                let i = self.ty(inner, te);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"array\",\"t\":{i},\"n\":{n}");
            }
            ty::Slice(inner) => {
                let i = self.ty(inner, te);
                let _ = write!(o, ",\"k\":\"slice\",\"t\":{i}");
            }
            ty::FnDef(d, args) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", js(&self.path(d)));
                let _ = args;
            }
            ty::Closure(d, args) => {
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = ups.into_iter().map(|x| self.ty(x, te).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"ups\":{}", js(&self.path(d)), arr(v));
            }
            ty::Coroutine(d, _) => {
                let _ = write!(o, ",\"k\":\"coroutine\",\"path\":{}", js(&self.path(d)));
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let local = def.did().is_local();
                let deep = local || p.starts_with("std::option") || p.starts_with("std::result")
                    || p.starts_with("std::task::Poll") || p.starts_with("std::ops") || p.starts_with("std::pin") || p.starts_with("std::cmp") || p.ends_with("::PollFn");
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(self.tcx, vi).val.to_string()
                    } else { "0".into() };
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let ft = if deep {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(te, ft);
                            match ft { Ok(ft) => self.ty(ft, te) as i64, Err(_) => -1 }
                        } else { -1 };
                        format!("[{},{}]", js(f.name.as_str()), ft)
                    }).collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), discr, arr(fs)));
                }
                let targs: Vec<String> = args.types().map(|x| self.ty(x, te).to_string()).collect();
                let _ = write!(o, ",\"k\":\"adt\",\"adt\":{},\"path\":{},\"local\":{},\"args\":{},\"vs\":{}", js(kind), js(&p), local, arr(targs), arr(vs));
            }
            ty::Param(_) => o.push_str(",\"k\":\"param\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        let nd = !t.has_escaping_bound_vars() && t.needs_drop(self.tcx, te);
        let _ = write!(o, ",\"drop\":{nd}}}");
        self.types[id] = o;
        id
    }

    fn want(&mut self, inst: Instance<'tcx>, te: TypingEnv<'tcx>) -> i64 {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) | InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => {}
            _ => return -1,
        }
        if !d.is_local() {
            let p = self.path(d);
            let shim = matches!(inst.def, InstanceKind::Shim(_));
            if !shim {
                let p2 = p.trim_start_matches('<');
                let ok = TRANSPARENT.iter().any(|t| p2.replace("core::", "std::").starts_with(t))
                    || p.contains(" as std::cmp::") || p.contains(" as std::ops::") || p.contains(" as std::iter::")
                    || p.contains(" as std::convert::") || p.contains(" as std::default::") || p.contains("std::option::Option") || p.contains("std::result::Result")
                    || p.contains("::PollFn<") || p.ends_with("::poll_fn") || p.ends_with("::assert_future") || p.contains(" as std::future::IntoFuture>") || p.ends_with("::poll_unpin")
                    || p.contains("::sync::atomic::Atomic") && ["::fetch_update", "::try_update", "::update"].iter().any(|x| p.ends_with(x));
                if !ok { return -1; }
                if !self.tcx.is_mir_available(d) { return -1; }
            }
        }
        let key = (inst, te.param_env);
        if let Some(i) = self.inst_ids.get(&key) { return *i as i64; }
        let id = self.inst_ids.len();
        self.inst_ids.insert(key, id);
        self.queue.push_back((id, inst, te));
        id as i64
    }

    fn place(&mut self, p: &Place<'tcx>, te: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) if !def.is_union() => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields.get(i).map(|f| f.name.to_string()).unwrap_or_default()
                        }
                        _ => i.as_usize().to_string(),
                    };
                    let ti = self.ty(t, te);
                    format!("[\"f\",{},{},{}]", i.as_usize(), ti, js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(n, vi) => format!("[\"v\",{},{}]", vi.as_usize(), js(n.map(|x| x.to_string()).unwrap_or_default().as_str())),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
                _ => "[\"o\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        let ti = self.ty(pt.ty, te);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(v), ti)
    }

    /// A constant slice of references, element by element.
    fn slice_elems(&mut self, c: ConstValue, t: Ty<'tcx>, ti: usize, te: TypingEnv<'tcx>, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        let ty::Slice(el) = *t.builtin_deref(true)?.kind() else { return None };
        if el.has_param() || !matches!(el.kind(), ty::Ref(..)) { return None; }
        let (aid, base, n) = match c {
            ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(mem) = tcx.global_alloc(alloc_id) else { return None };
                let ps = tcx.data_layout.pointer_size();
                let p = mem.inner().read_scalar(&tcx, AllocRange { start: offset, size: ps }, true).ok()?;
                let m = mem.inner().read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false).ok()?;
                let Scalar::Ptr(p, _) = p else { return None };
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off, m.to_target_usize(&tcx).discard_err()?)
            }
            _ => return None,
        };
        if n > 16 { return None; }
        let l = tcx.layout_of(te.as_query_input(el)).ok()?;
        let fs: Vec<String> = (0..n).map(|i| self.constval(ConstValue::Indirect { alloc_id: aid, offset: base + l.size * i }, el, te, depth + 1)).collect();
        Some(format!("{{\"k\":\"cslice\",\"t\":{ti},\"f\":{}}}", arr(fs)))
    }

    fn constval(&mut self, c: ConstValue, t: Ty<'tcx>, te: TypingEnv<'tcx>, depth: usize) -> String {
        let ti = self.ty(t, te);
        if depth > 6 { return format!("{{\"k\":\"opaque\",\"t\":{ti},\"s\":\"deep\"}}"); }
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(..) => return format!("{{\"k\":\"fn\",\"t\":{ti}}}"),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(s) = c.try_to_scalar_int() {
                    let bits = s.to_bits(s.size());
                    return format!("{{\"k\":\"int\",\"t\":{ti},\"v\":\"{bits}\"}}");
                }
            }
            ty::RawPtr(..) | ty::Ref(..) => {
                match c {
                    ConstValue::Scalar(Scalar::Int(s)) => {
                        let bits = s.to_bits(s.size());
                        return format!("{{\"k\":\"int\",\"t\":{ti},\"v\":\"{bits}\"}}");
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Static(d) => {
                                // an immutable static without interior mutability is its value
                                if let Some(inner) = t.builtin_deref(true) {
                                    if d.is_local() && !inner.has_param() && matches!(tcx.static_mutability(d), Some(rustc_hir::Mutability::Not)) && inner.is_sized(tcx, te) && inner.is_freeze(tcx, te) {
                                        if let (Ok(al), Ok(l)) = (tcx.eval_static_initializer(d), tcx.layout_of(te.as_query_input(inner))) {
                                            if let rustc_abi::BackendRepr::Scalar(s) = l.backend_repr {
                                                let isptr = matches!(s.primitive(), rustc_abi::Primitive::Pointer(_));
                                                if let Ok(v) = al.inner().read_scalar(&tcx, AllocRange { start: rustc_abi::Size::ZERO, size: l.size }, isptr) {
                                                    let s = self.constval(ConstValue::Scalar(v), inner, te, depth + 1);
                                                    return format!("{{\"k\":\"cref\",\"t\":{ti},\"v\":{s}}}");
                                                }
                                            }
                                        }
                                    }
                                }
                                return format!("{{\"k\":\"static\",\"t\":{ti},\"path\":{}}}", js(&self.path(d)));
                            }
                            GlobalAlloc::Memory(mem) => {
                                if let Some(inner) = t.builtin_deref(true) {
                                    if !inner.has_param() && inner.is_sized(tcx, te) {
                                        if let Ok(l) = tcx.layout_of(te.as_query_input(inner)) {
                                            let cv = if l.is_zst() {
                                                Some(ConstValue::ZeroSized)
                                            } else if let rustc_abi::BackendRepr::Scalar(s) = l.backend_repr {
                                                let isptr = matches!(s.primitive(), rustc_abi::Primitive::Pointer(_));
                                                mem.inner().read_scalar(&tcx, AllocRange { start: off, size: l.size }, isptr).ok().map(ConstValue::Scalar)
                                            } else {
                                                Some(ConstValue::Indirect { alloc_id: aid, offset: off })
                                            };
                                            if let Some(cv) = cv {
                                                let s = self.constval(cv, inner, te, depth + 1);
                                                return format!("{{\"k\":\"cref\",\"t\":{ti},\"v\":{s}}}");
                                            }
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    ConstValue::Slice { .. } | ConstValue::Indirect { .. } => {
                        if let Some(s) = self.slice_elems(c, t, ti, te, depth) { return s; }
                        if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                            let inner_is_str = t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false);
                            let bytes = b.len();
                            let s = String::from_utf8_lossy(b).to_string();
                            return format!("{{\"k\":\"{}\",\"t\":{ti},\"v\":{},\"n\":{bytes}}}", if inner_is_str { "str" } else { "bytes" }, js(&s));
                        }
                    }
                    _ => {}
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if !t.has_param() {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                        let fs: Vec<String> = dc.fields.iter().map(|(cv, ft)| self.constval(*cv, *ft, te, depth + 1)).collect();
                        let v = dc.variant.map(|v| v.as_usize() as i64).unwrap_or(0);
                        return format!("{{\"k\":\"agg\",\"t\":{ti},\"v\":{v},\"f\":{}}}", arr(fs));
                    }
                }
            }
            _ => {}
        }
        if matches!(c, ConstValue::ZeroSized) {
            return format!("{{\"k\":\"zst\",\"t\":{ti}}}");
        }
        format!("{{\"k\":\"opaque\",\"t\":{ti},\"s\":{}}}", js(&format!("{c:?}")))
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, te: TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            let ti = self.ty(t, te);
            return format!("{{\"k\":\"fn\",\"t\":{ti}}}");
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if c.const_.has_param() {
                    let ti = self.ty(t, te);
                    let _ = inst;
                    return format!("{{\"k\":\"promoted\",\"t\":{ti},\"n\":{}}}", p.as_usize());
                }
            }
        }
        match c.const_.eval(self.tcx, te, c.span) {
            Ok(v) => {
                let mut s = self.constval(v, t, te, 0);
                if let Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        s.pop();
                        let _ = write!(s, ",\"def\":{}}}", js(&self.path(u.def)));
                    }
                }
                s
            }
            Err(_) => {
                let ti = self.ty(t, te);
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        return format!("{{\"k\":\"promoted\",\"t\":{ti},\"n\":{}}}", p.as_usize());
                    }
                    if u.def.is_local() {
                        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, te, u.def, u.args) {
                            if i.def_id().is_local() {
                                let id = self.want(i, te);
                                if id >= 0 { return format!("{{\"k\":\"cbody\",\"t\":{ti},\"inst\":{id},\"s\":{}}}", js(&format!("{}", c.const_))); }
                            }
                        }
                    }
                }
                format!("{{\"k\":\"opaque\",\"t\":{ti},\"s\":{}}}", js(&format!("{}", c.const_)))
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, te, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, te, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, te, inst)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>, b: &Body<'tcx>, inst: Instance<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, te, b, inst)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, te, b, inst), n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p, te, b)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p, te, b)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t, te);
                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o, te, b, inst), ti)
            }
            Rvalue::BinaryOp(op, bx) => format!("[\"bin\",{},{},{}]", js(&format!("{op:?}")), self.operand(&bx.0, te, b, inst), self.operand(&bx.1, te, b, inst)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", js(&format!("{op:?}")), self.operand(o, te, b, inst)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, te, b)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, te, b, inst)).collect();
                let ks = match **k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, act) => {
                        let def = self.tcx.adt_def(d);
                        let vn = def.variant(vi).name.to_string();
                        let fns: Vec<String> = if act.is_some() { vec![] } else { def.variant(vi).fields.iter().map(|f| js(f.name.as_str())).collect() };
                        format!("[\"adt\",{},{},{},{}]", js(&self.path(d)), vi.as_usize(), js(&vn), arr(fns))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.path(d))),
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => format!("[\"coroutine\",{}]", js(&self.path(d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, te, b)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, te, b, inst)),
            #[allow(unreachable_patterns)]
            _ => format!("[\"other\",{}]", js(&format!("{r:?}"))),
        }
    }

    fn callee(&mut self, func: &Operand<'tcx>, te: TypingEnv<'tcx>, b: &Body<'tcx>, inst: Instance<'tcx>) -> String {
        let fty = func.ty(&b.local_decls, self.tcx);
        if let ty::FnDef(d, args) = *fty.kind() {
            let args = match args.no_bound_vars() { Some(a) => a, None => {
                return format!("{{\"k\":\"fn\",\"path\":{},\"decl\":{},\"inst\":-1,\"args\":\"\"}}", js(&self.path(d)), js(&self.path(d)));
            } };
            let decl = self.path(d);
            let astr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{args:?}"));
            let trait_ = match self.tcx.trait_of_assoc(d) { Some(t) => js(&self.path(t)), None => "null".into() };
            let tas: Vec<String> = args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t, te).to_string()).collect();
            let intr = match self.tcx.intrinsic(d) { Some(i) => js(i.name.as_str()), None => "null".into() };
            let r = Instance::try_resolve(self.tcx, te, d, args);
            let (path, id, kind) = match r {
                Ok(Some(i)) => {
                    // the iterators of slices and maps have hand-written loops over raw pointers;
                    // the loops of the trait itself do the same through next()
                    let rp = self.path(i.def_id());
                    let i = if i.def_id() != d && ["<std::slice::Iter<", "<std::slice::IterMut<", "<std::collections::hash_map::", "<slab::", "<std::ops::Range<"].iter().any(|x| rp.starts_with(x))
                        && ["::fold", "::for_each", "::all", "::any", "::find", "::find_map", "::position"].iter().any(|m| rp.ends_with(m)) {
                        Instance::new_raw(d, args)
                    } else { i };
                    let id = self.want(i, te);
                    let k = match i.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                        InstanceKind::Intrinsic(_) => "intrinsic",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                        InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
                        InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                        InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
                        _ => "shim",
                    };
                    (self.path(i.def_id()), id, k)
                }
                _ => (decl.clone(), -1, "unresolved"),
            };
            let uns = !fty.fn_sig(self.tcx).safety().is_safe();
            let sabi = match fty.fn_sig(self.tcx).abi() { rustc_abi::ExternAbi::RustCall => "rust-call", _ => "" };
            return format!("{{\"k\":\"fn\",\"path\":{},\"decl\":{},\"trait\":{},\"inst\":{},\"kind\":{},\"abi\":{},\"intr\":{},\"targs\":{},\"args\":{},\"local\":{},\"uns\":{uns}}}",
                js(&path), js(&decl), trait_, id, js(kind), js(sabi), intr, arr(tas), js(&astr), d.is_local());
        }
        format!("{{\"k\":\"ptr\",\"op\":{}}}", self.operand(func, te, b, inst))
    }

    fn body(&mut self, b: &Body<'tcx>, te: TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let ti = self.ty(d.ty, te);
            let n = names.get(&l.as_usize()).map(|s| js(s)).unwrap_or("null".into());
            locals.push(format!("[{ti},{n}]"));
        }
        let mut blocks = vec![];
        for (_bi, bd) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bd.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0, te, b);
                        let r = self.rvalue(&bx.1, te, b, inst);
                        st.push(format!("[\"=\",{p},{r},{}]", js(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, te, b);
                        st.push(format!("[\"setd\",{p},{},{}]", variant_index.as_usize(), js(&sp)));
                    }
                    StatementKind::Intrinsic(bx) => match &**bx {
                        NonDivergingIntrinsic::Assume(_) => {}
                        other => st.push(format!("[\"intr\",{},{}]", js(&format!("{other:?}")), js(&sp))),
                    },
                    _ => {}
                }
            }
            let t = bd.terminator();
            let sp = js(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, te, b, inst);
                    let tv: Vec<String> = targets.iter().map(|(v, bb)| format!("[\"{v}\",{}]", bb.as_usize())).collect();
                    format!("[\"switch\",{o},{},{},{sp}]", arr(tv), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{},{sp}]", self.place(place, te, b), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(func, te, b, inst);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, te, b, inst)).collect();
                    let d = self.place(destination, te, b);
                    let tg = target.map(|x| x.as_usize() as i64).unwrap_or(-1);
                    format!("[\"call\",{c},{},{d},{tg},{sp}]", arr(a))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, te, b, inst);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{o},{expected},{},{},{sp}]", js(&m), target.as_usize())
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let o = self.operand(value, te, b, inst);
                    let p = self.place(resume_arg, te, b);
                    format!("[\"yield\",{o},{},{p},{sp}]", resume.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                other => format!("[\"other\",{}]", js(&format!("{other:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{term},\"c\":{}}}", arr(st), bd.is_cleanup));
        }
        let spread = b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        format!("\"argc\":{},\"spread\":{spread},\"locals\":{},\"blocks\":{}", b.arg_count, arr(locals), arr(blocks))
    }

    fn emit(&mut self, id: usize, inst: Instance<'tcx>, te: TypingEnv<'tcx>) {
        let d = inst.def_id();
        let tcx = self.tcx;
        let b0: Body<'tcx> = if let Some(b) = self.coroutines.get(&d) { b.clone() } else { tcx.instance_mir(inst.def).clone() };
        let b: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, b0.clone())) {
            Ok(b) => b,
            Err(_) => b0,
        };
        let body = self.body(&b, te, inst);
        let mut proms = vec![];
        if let InstanceKind::Item(_) = inst.def {
            if !self.coroutines.contains_key(&d) {
                let ps = tcx.promoted_mir(d);
                for p in ps.iter() {
                    let pb = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, p.clone())) {
                        Ok(b) => b,
                        Err(_) => p.clone(),
                    };
                    let s = self.body(&pb, te, inst);
                    proms.push(format!("{{{s}}}"));
                }
            }
        }
        let clos = tcx.is_closure_like(d);
        let args = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}", inst.args));
        let vis = if tcx.def_kind(d) == DefKind::Closure { "closure".to_string() } else if d.is_local() { format!("{:?}", tcx.visibility(d)) } else { "ext".into() };
        let reach = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
        let shim = !matches!(inst.def, InstanceKind::Item(_));
        let (tr, ity) = match tcx.impl_of_assoc(d) {
            Some(i) => {
                let it = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let its = match it.kind() { ty::Adt(def, _) => self.path(def.did()), _ => self.tystr(it) };
                let t = tcx.impl_opt_trait_ref(i).map(|t| self.path(t.skip_binder().def_id));
                (t.map(|x| js(&x)).unwrap_or("null".into()), js(&its))
            }
            None => ("null".into(), "null".into()),
        };
        let name = if clos { "{closure}".to_string() } else { tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default() };
        let modp = if d.is_local() { self.path(tcx.parent_module_from_def_id(d.expect_local()).to_def_id()) } else { "".into() };
        let cor = self.coroutines.contains_key(&d);
        let isasync = d.is_local() && !clos && tcx.def_kind(d) != DefKind::Closure && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.asyncness(d).is_async();
        let parent = if clos { js(&self.path(tcx.typeck_root_def_id(d))) } else { "null".into() };
        let s = format!("{{\"id\":{id},\"path\":{},\"args\":{},\"local\":{},\"closure\":{clos},\"coroutine\":{cor},\"async\":{isasync},\"shim\":{shim},\"vis\":{},\"reach\":{reach},\"trait\":{tr},\"self\":{ity},\"name\":{},\"mod\":{},\"parent\":{parent},\"span\":{},{body},\"promoted\":{}}}",
            js(&self.path(d)), js(&args), d.is_local(), js(&vis), js(&name), js(&modp), js(&self.span(tcx.def_span(d))), arr(proms));
        self.out.push(s);
    }
}


// ---------------------------------------------------------------- auto traits
// What the trait solver says about Send / Sync / Unpin of a local type, for every
// combination of assumptions about its type parameters: rows of
// [future, send, sync, unpin, is_send, is_sync, is_unpin].
fn auto_rows<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, t: Ty<'tcx>) -> Option<String> {
    let li = tcx.lang_items();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send)?;
    let sync = li.sync_trait()?;
    let unpin = li.unpin_trait()?;
    let fut = li.future_trait()?;
    let params: Vec<Ty<'tcx>> = ty::GenericArgs::identity_for_item(tcx, owner).types().collect();
    let own: Vec<ty::Clause<'tcx>> = tcx.param_env(owner).caller_bounds().collect();
    let mut rows = vec![];
    let n = if params.is_empty() { 1 } else { 16 };
    for m in 0..n {
        let mut cl = own.clone();
        for (i, tr) in [fut, send, sync, unpin].into_iter().enumerate() {
            if m & (1 << i) != 0 {
                for p in &params {
                    let r = ty::TraitRef::new(tcx, tr, [*p]);
                    cl.push(ty::Binder::dummy(r).upcast(tcx));
                }
            }
        }
        let pe = ty::ParamEnv::new(tcx, cl);
        let te = TypingEnv::new(pe, ty::TypingMode::PostAnalysis);
        let mut row: Vec<String> = (0..4).map(|i| ((m >> i) & 1).to_string()).collect();
        for tr in [send, sync, unpin] {
            let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
            let ok = infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions();
            row.push((ok as u8).to_string());
        }
        rows.push(arr(row));
    }
    Some(arr(rows))
}

impl<'tcx> Cx<'tcx> {
    // the types reached through pointers the compiler does not look through (AtomicPtr, raw), from a type
    fn behind(&self, t: Ty<'tcx>, hidden: bool, seen: &mut HashSet<(Ty<'tcx>, bool)>, out: &mut Vec<Ty<'tcx>>) {
        if !seen.insert((t, hidden)) { return; }
        let tcx = self.tcx;
        match t.kind() {
            ty::RawPtr(u, _) => self.behind(*u, true, seen, out),
            ty::Ref(_, u, _) | ty::Slice(u) | ty::Array(u, _) => self.behind(*u, hidden, seen, out),
            ty::Tuple(l) => { for u in l.iter() { self.behind(u, hidden, seen, out); } }
            ty::Adt(def, args) => {
                if def.did().is_local() {
                    if hidden { out.push(t); }
                    for f in def.all_fields() {
                        let ft = tcx.erase_and_anonymize_regions(f.ty(tcx, args).skip_norm_wip());
                        self.behind(ft, false, seen, out);
                    }
                } else {
                    let n = self.path(def.did());
                    let h = n.contains("::AtomicPtr") || n.contains("::Atomic") && args.types().any(|u| u.is_raw_ptr()) || n.contains("NonNull");
                    for u in args.types() { self.behind(u, h || hidden, seen, out); }
                }
            }
            _ => {}
        }
    }
    fn autos(&self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut hidden = vec![];
        let mut seen = HashSet::new();
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            let reach = tcx.effective_visibilities(()).is_reachable(l);
            let (kind, t) = match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => ("type", tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                DefKind::Fn | DefKind::AssocFn => {
                    let o = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip()).output());
                    if !reach { continue; }
                    ("returns", o)
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    self.behind(tcx.erase_and_anonymize_regions(t), false, &mut seen, &mut hidden);
                    continue;
                }
                _ => continue,
            };
            let dtor = t.ty_adt_def().map(|a| a.destructor(tcx).is_some()).unwrap_or(false);
            let manual = vec![tcx.get_diagnostic_item(rustc_span::sym::Send), tcx.lang_items().sync_trait()].into_iter().enumerate().filter_map(|(i, x)| {
                let x = x?;
                let mut bad = None;
                for im in tcx.all_impls(x) {
                    if !im.is_local() { continue; }
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    if kind == "type" && st.ty_adt_def() == t.ty_adt_def() && st.ty_adt_def().is_some() {
                        let ty::Adt(def, args) = st.kind() else { continue };
                        for f in def.all_fields() {
                            let ft = tcx.erase_and_anonymize_regions(f.ty(tcx, args).skip_norm_wip());
                            let te = TypingEnv::new(tcx.param_env(im), ty::TypingMode::PostAnalysis);
                            let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
                            let ok = ft.is_raw_ptr() || infcx.type_implements_trait(x, [ft], pe).must_apply_modulo_regions();
                            if !ok { bad = Some(format!("[{},{},{}]", js(if i == 0 { "Send" } else { "Sync" }), js(&f.name.to_string()), js(&self.span(tcx.def_span(im))))); }
                        }
                    }
                }
                bad
            }).collect::<Vec<_>>();
            let rows = auto_rows(tcx, d, t).unwrap_or("null".into());
            out.push(format!("{{\"path\":{},\"kind\":{},\"reach\":{reach},\"drop\":{dtor},\"name\":{},\"manual\":{},\"rows\":{rows},\"span\":{}}}",
                js(&self.path(d)), js(kind), js(&tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()), arr(manual), js(&self.span(tcx.def_span(d)))));
        }
        for t in hidden {
            if t.has_param() { continue; }
            let d = t.ty_adt_def().unwrap().did();
            let rows = {
                let te = TypingEnv::fully_monomorphized();
                let mut r = vec![];
                for x in [tcx.get_diagnostic_item(rustc_span::sym::Send), tcx.lang_items().sync_trait()] {
                    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
                    let ok = x.map(|x| infcx.type_implements_trait(x, [t], pe).must_apply_modulo_regions()).unwrap_or(false);
                    r.push((ok as u8).to_string());
                }
                arr(r)
            };
            out.push(format!("{{\"path\":{},\"kind\":\"hidden\",\"reach\":false,\"drop\":false,\"name\":\"\",\"manual\":[],\"rows\":{rows},\"span\":{}}}", js(&self.tystr(t)), js(&self.span(tcx.def_span(d)))));
        }
        arr(out)
    }
}

struct CB {
    out: String,
    cor: HashMap<DefId, usize>,
}

thread_local! {
    // coroutine bodies before the state transform; the lifetime is that of the one
    // compilation session and is erased only to carry them between two callbacks
    static COR: std::cell::RefCell<Vec<Body<'static>>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl rustc_driver::Callbacks for CB {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        for k in tcx.hir_body_owners() {
            let d = k.to_def_id();
            if tcx.is_coroutine(d) {
                let b: Body<'tcx> = tcx.mir_drops_elaborated_and_const_checked(k).borrow().clone();
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                COR.with(|c| {
                    self.cor.insert(d, c.borrow().len());
                    c.borrow_mut().push(b);
                });
            }
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        if self.out.ends_with(".bodies") {
            std::fs::write(&self.out, bodies_text(tcx)).expect("write bodies");
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: vec![], type_ids: HashMap::new(), inst_ids: HashMap::new(), queue: VecDeque::new(), out: vec![], coroutines: HashMap::new() };
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in &keys {
            let d = k.to_def_id();
            if tcx.is_coroutine(d) {
                if let Some(i) = self.cor.get(&d) {
                    let b: Body<'static> = COR.with(|c| c.borrow()[*i].clone());
                    let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                    cx.coroutines.insert(d, b);
                }
            }
        }
        let mut roots = HashSet::new();
        let mut skipped = vec![];
        for k in &keys {
            let d = k.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                other => { skipped.push(js(&format!("{} {:?}", cx.path(d), other))); continue; }
            }
            let te = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d));
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { def: InstanceKind::Item(d), args };
            let id = cx.want(inst, te);
            if id >= 0 { roots.insert(id as usize); }
        }
        while let Some((id, inst, te)) = cx.queue.pop_front() {
            cx.emit(id, inst, te);
        }
        // public API and statics
        let mut statics = vec![];
        let mut consts = vec![];
        for k in &keys {
            let d = k.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && !tcx.generics_of(d).requires_monomorphization(tcx) {
                let te = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let Ok(v) = tcx.const_eval_poly(d) {
                    let v = cx.constval(v, t, te, 0);
                    consts.push(format!("[{},{}]", js(&cx.path(d)), v));
                }
            }
            if let DefKind::Static { .. } = tcx.def_kind(d) {
                let te = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t, te);
                statics.push(format!("[{},{},{}]", js(&cx.path(d)), ti, js(&cx.span(tcx.def_span(d)))));
            }
        }
        let mut rv: Vec<usize> = roots.into_iter().collect();
        rv.sort();
        let rs: Vec<String> = rv.iter().map(|x| x.to_string()).collect();
        let autos = cx.autos();
        let s = format!("{{\"ptr\":{},\"autos\":{autos},\"roots\":{},\"skipped\":{},\"statics\":{},\"consts\":{},\"types\":[\n{}\n],\"bodies\":[\n{}\n]}}\n",
            tcx.data_layout.pointer_size().bits(), arr(rs), arr(skipped), arr(statics), arr(consts), cx.types.join(",\n"), cx.out.join(",\n"));
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

// Every body of the crate as text, to compare what a function is under other
// features: one line "path, tab, MIR" each.
fn bodies_text(tcx: TyCtxt<'_>) -> String {
    let mut out = String::new();
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!({
        for k in tcx.hir_body_owners() {
            let d = k.to_def_id();
            let b = match tcx.hir_body_const_context(k) {
                None | Some(rustc_hir::ConstContext::ConstFn) => tcx.optimized_mir(d),
                _ => tcx.mir_for_ctfe(d),
            };
            let mut t = format!("{:?}", b.local_decls.iter().map(|l| l.ty).collect::<Vec<_>>());
            for bd in b.basic_blocks.iter() {
                for st in &bd.statements { t += &format!("; {:?}", st.kind); }
                t += &format!("; {:?}", bd.terminator().kind);
            }
            for pr in tcx.promoted_mir(d).iter() {
                for bd in pr.basic_blocks.iter() {
                    for st in &bd.statements { t += &format!("; {:?}", st.kind); }
                    t += &format!("; {:?}", bd.terminator().kind);
                }
            }
            out += &format!("{}\t{}\t{:?}\n", tcx.def_path_str(d), t.replace('\n', " ").replace('\t', " "), tcx.def_span(d));
        }
    }));
    out
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("WT_CRATE").unwrap_or_default();
    let mut name = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() { name = args[i + 1].clone(); }
    }
    let istest = args.iter().any(|a| a == "--test");
    let out = std::env::var("WT_OUT").unwrap_or_default();
    if name == want && !istest && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
        for a in std::env::var("WT_ARGS").unwrap_or_default().split_whitespace() { args.push(a.into()); }
        let mut cb = CB { out, cor: HashMap::new() };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
