//! mirdump: dumps the monomorphic MIR reachable from the harness roots of one crate as JSON.
//! Used as RUSTC_WRAPPER: for every crate but `MIRDUMP_CRATE` it simply runs the real rustc
//! (in-process, same arguments); for that crate it dumps after analysis into `MIRDUMP_OUT`.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
extern crate rustc_public_bridge;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty, usize>,
    ty_queue: VecDeque<(usize, Ty)>,
    inst_ids: HashMap<Instance, usize>,
    inst_queue: VecDeque<(usize, Instance)>,
    alloc_ids: HashMap<AllocId, usize>,
    alloc_queue: VecDeque<(usize, AllocId)>,
    files: Vec<String>,
    models: HashMap<String, FnDef>,
    subst: HashMap<String, String>,
    tsubst: HashMap<String, String>,
    stop: Vec<String>,
    next_def: Option<FnDef>,
    nextback_def: Option<FnDef>,
    intoiter_def: Option<FnDef>,
    iter_trait: Option<rustc_span::def_id::DefId>,
    de_trait: Option<rustc_span::def_id::DefId>,
    intoiter_trait: Option<rustc_span::def_id::DefId>,
    used_models: std::collections::BTreeSet<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_ids.len();
        self.ty_ids.insert(t, i);
        self.ty_queue.push_back((i, t));
        i
    }
    fn inst(&mut self, n: Instance) -> usize {
        if let Some(i) = self.inst_ids.get(&n) {
            return *i;
        }
        let i = self.inst_ids.len();
        self.inst_ids.insert(n, i);
        self.inst_queue.push_back((i, n));
        i
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.alloc_ids.get(&a) {
            return *i;
        }
        let i = self.alloc_ids.len();
        self.alloc_ids.insert(a, i);
        self.alloc_queue.push_back((i, a));
        i
    }
    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut h = String::with_capacity(a.bytes.len() * 2);
        let mut uninit = false;
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(h, "{b:02x}");
                }
                None => {
                    uninit = true;
                    h.push_str("00");
                }
            }
        }
        let ptrs: Vec<String> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| format!("[{},{}]", o, self.alloc(p.0)))
            .collect();
        format!(
            "{{\"b\":\"{}\",\"p\":{},\"u\":{},\"m\":{}}}",
            h,
            list(ptrs),
            uninit,
            matches!(a.mutability, Mutability::Mut)
        )
    }
    fn span(&mut self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        let i = match self.files.iter().position(|x| *x == f) {
            Some(i) => i,
            None => {
                self.files.push(f);
                self.files.len() - 1
            }
        };
        format!("[{},{}]", i, l.start_line)
    }
    fn args_json(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{n}}}"),
                    Err(_) => esc(&format!("{c:?}")),
                }),
            })
            .collect();
        list(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let rigid = match kind.rigid() {
            Some(r) => r.clone(),
            None => return format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{t}"))),
        };
        let name = esc(&format!("{t}"));
        let mut o = format!("{{\"n\":{name}");
        let mut want_layout = true;
        match rigid {
            RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
            RigidTy::Char => o.push_str(",\"k\":\"char\""),
            RigidTy::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"s\":true,\"w\":{}", i.num_bytes() * 8);
            }
            RigidTy::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"s\":false,\"w\":{}", i.num_bytes() * 8);
            }
            RigidTy::Float(_) => o.push_str(",\"k\":\"float\""),
            RigidTy::Str => {
                want_layout = false;
                o.push_str(",\"k\":\"str\"")
            }
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                let n = n.eval_target_usize().map(|x| x as i128).unwrap_or(-1);
                let _ = write!(o, ",\"k\":\"array\",\"e\":{e},\"len\":{n}");
            }
            RigidTy::Slice(e) => {
                want_layout = false;
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{e}");
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{e},\"mut\":{}", m == Mutability::Mut);
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{e},\"mut\":{}", m == Mutability::Mut);
            }
            RigidTy::FnDef(d, a) => {
                let id = match Instance::resolve_for_fn_ptr(d, &a) {
                    Ok(i) => {
                        if self.stopped(&d.name()) {
                            -1
                        } else {
                            self.inst(i) as i64
                        }
                    }
                    Err(_) => -1,
                };
                let args = self.args_json(&a);
                let _ = write!(
                    o,
                    ",\"k\":\"fndef\",\"inst\":{id},\"def\":{},\"args\":{args}",
                    esc(&d.name())
                );
            }
            RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
            RigidTy::Closure(d, a) => {
                let id = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce]
                    .into_iter()
                    .find_map(|k| {
                        // the closure's own kind: the widest trait it implements directly
                        Instance::resolve_closure(d, &a, k).ok().filter(|i| i.kind == InstanceKind::Item)
                    });
                let id = match id {
                    Some(i) => self.inst(i) as i64,
                    None => -1,
                };
                // upvar tuple type is the last generic arg
                let up = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => self.ty(*t) as i64,
                    _ => -1,
                };
                let _ = write!(o, ",\"k\":\"closure\",\"inst\":{id},\"up\":{up}");
            }
            RigidTy::Never => o.push_str(",\"k\":\"never\""),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"f\":{}", list(v));
            }
            RigidTy::Adt(d, a) => {
                let kind = match d.kind() {
                    AdtKind::Struct => "struct",
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                };
                let args = self.args_json(&a);
                let variants: Vec<String> = d
                    .variants()
                    .iter()
                    .map(|v| {
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val as i128
                        } else {
                            0
                        };
                        let fields: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&a);
                                let ft = self.norm(ft);
                                format!("[{},{}]", esc(&f.name), self.ty(ft))
                            })
                            .collect();
                        format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            esc(&v.name()),
                            discr,
                            list(fields)
                        )
                    })
                    .collect();
                let _ = write!(
                    o,
                    ",\"k\":\"adt\",\"a\":\"{kind}\",\"def\":{},\"args\":{args},\"v\":{}",
                    esc(&d.name()),
                    list(variants)
                );
            }
            RigidTy::Dynamic(..) => {
                want_layout = false;
                o.push_str(",\"k\":\"dyn\"")
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        if want_layout {
            if let Ok(l) = t.layout() {
                let s = l.shape();
                let _ = write!(o, ",\"size\":{}", s.size.bytes());
                match &s.fields {
                    FieldsShape::Arbitrary { offsets } => {
                        let v: Vec<String> = offsets.iter().map(|x| x.bytes().to_string()).collect();
                        let _ = write!(o, ",\"off\":{}", list(v));
                    }
                    FieldsShape::Array { stride, count } => {
                        let _ = write!(o, ",\"stride\":{},\"cnt\":{}", stride.bytes(), count);
                    }
                    _ => {}
                }
                match &s.variants {
                    VariantsShape::Single { index } => {
                        let _ = write!(o, ",\"single\":{}", index.to_index());
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "\"direct\"".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                format!(
                                    "[{},{},{},{}]",
                                    untagged_variant.to_index(),
                                    niche_variants.start().to_index(),
                                    niche_variants.end().to_index(),
                                    niche_start
                                )
                            }
                        };
                        let vs: Vec<String> = variants
                            .iter()
                            .map(|v| list(v.offsets.iter().map(|x| x.bytes().to_string())))
                            .collect();
                        let _ = write!(
                            o,
                            ",\"tag\":{},\"enc\":{enc},\"tagf\":{},\"voff\":{}",
                            esc(&format!("{tag:?}")),
                            tag_field,
                            list(vs)
                        );
                    }
                    VariantsShape::Empty => {}
                }
            }
        }
        o.push('}');
        o
    }
    /// normalise projections in a field type
    fn norm(&mut self, t: Ty) -> Ty {
        let it = rustc_public::rustc_internal::internal(self.tcx, t);
        let r = self.tcx.try_normalize_erasing_regions(
            rustc_middle::ty::TypingEnv::fully_monomorphized(),
            rustc_middle::ty::Unnormalized::new_wip(it),
        );
        match r {
            Ok(t) => rustc_public::rustc_internal::stable(t),
            Err(_) => t,
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},{}]", p.local, list(pr))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"k\":\"c\",\"t\":{t},\"a\":{}}}", self.alloc_json(a)),
            ConstantKind::ZeroSized => format!("{{\"k\":\"z\",\"t\":{t}}}"),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    format!("{{\"k\":\"c\",\"t\":{t},\"a\":{}}}", self.alloc_json(a))
                }
                TyConstKind::ZSTValue(_) => format!("{{\"k\":\"z\",\"t\":{t}}}"),
                _ => format!("{{\"k\":\"?\",\"t\":{t}}}"),
            },
            _ => format!("{{\"k\":\"?\",\"t\":{t}}}"),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"p\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"m\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"k\":\"rt\",\"n\":{}}}", esc(&format!("{r:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p),
                matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::Reborrow(_, _, p) => {
                format!("[\"use\",{{\"k\":\"p\",\"p\":{}}}]", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            v.to_index(),
                            f.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".to_string(),
                };
                let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{k},{}]", list(o))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"chk\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{u:?}\",{}]", self.operand(x)),
            Rvalue::Cast(k, x, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(p) => format!("pc:{p:?}"),
                    k => format!("{k:?}"),
                };
                let mut extra = String::from("null");
                if let CastKind::PointerCoercion(pc) = k {
                    let st = match x {
                        Operand::Constant(c) => Some(c.const_.ty()),
                        _ => None,
                    };
                    if matches!(pc, PointerCoercion::ReifyFnPointer(..)) {
                        if let Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) = st.map(|t| t.kind()) {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                    if matches!(pc, PointerCoercion::ClosureFnPointer(..)) {
                        if let Some(TyKind::RigidTy(RigidTy::Closure(d, a))) = st.map(|t| t.kind()) {
                            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                                extra = self.inst(i).to_string();
                            }
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(x), self.ty(*t), extra)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"p\",\"p\":{}}}]", self.place(p)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, c) => format!(
                "[\"rep\",{},{}]",
                self.operand(o),
                c.eval_target_usize().map(|x| x as i128).unwrap_or(-1)
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
        }
    }
    fn stopped(&self, name: &str) -> bool {
        self.stop.iter().any(|s| {
            if let Some(p) = s.strip_suffix('*') {
                name.starts_with(p)
            } else {
                name == s
            }
        })
    }
    fn implements(&self, t: Ty, tr: Option<rustc_span::def_id::DefId>) -> bool {
        use rustc_trait_selection::infer::InferCtxtExt;
        use rustc_infer::infer::TyCtxtInferExt;
        let Some(tr) = tr else { return false };
        let it = rustc_public::rustc_internal::internal(self.tcx, t);
        let (infcx, env) = self
            .tcx
            .infer_ctxt()
            .build_with_typing_env(rustc_middle::ty::TypingEnv::fully_monomorphized());
        infcx.type_implements_trait(tr, [it], env).must_apply_modulo_regions()
    }
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let dname = d.name();
        let def = esc(&dname);
        let args = self.args_json(a);
        let mut model_from = None;
        let resolved = Instance::resolve(d, a).ok();
        let rname = resolved.as_ref().map(|i| inst_def_name(i)).unwrap_or_default();
        for n in [&rname, &dname] {
            if let Some(m) = self.subst.get(n.as_str()) {
                let src = if *n == rname { resolved.as_ref().unwrap().args() } else { a.clone() };
                model_from = Some((m.clone(), src));
                break;
            }
        }
        if model_from.is_none() {
            if let Some(m) = self.tsubst.get(dname.as_str()) {
                let r = rname.trim_start_matches('<');
                if r.starts_with("std::") || r.starts_with("core::") || r.starts_with("alloc::") {
                    model_from = Some((m.clone(), a.clone()));
                }
            }
        }
        if let Some((m, src)) = model_from {
            if let Some(md) = self.models.get(&m).copied() {
                let need = md.generics_of().params.iter().filter(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)).count();
                let ta: Vec<GenericArgKind> = src
                    .0
                    .iter()
                    .filter(|k| !matches!(k, GenericArgKind::Lifetime(_)))
                    .cloned()
                    .collect();
                if ta.len() >= need {
                    let ta = GenericArgs(ta[..need].to_vec());
                    if let Ok(i) = Instance::resolve(md, &ta) {
                        self.used_models.insert(format!("{rname} -> {m}"));
                        return format!(
                            "{{\"def\":{def},\"rdef\":{},\"args\":{args},\"inst\":{},\"model\":true}}",
                            esc(&rname),
                            self.inst(i)
                        );
                    }
                }
            }
        }
        match resolved {
            Some(i) => {
                // an implementation outside the standard library is followed whatever its trait
                let std = matches!(i.def.krate().name.as_str(), "core" | "alloc" | "std");
                let stop = self.stopped(&rname) || std && self.stopped(&dname);
                let intr = match i.kind {
                    InstanceKind::Intrinsic => {
                        i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into())
                    }
                    _ => "null".into(),
                };
                let ra = i.args();
                let rargs = self.args_json(&ra);
                let id = if stop { "null".to_string() } else { self.inst(i).to_string() };
                let extra = if stop { self.iter_extras(&ra) } else { "null".into() };
                format!(
                    "{{\"def\":{def},\"rdef\":{},\"args\":{args},\"rargs\":{rargs},\"inst\":{id},\"intr\":{intr},\"name\":{},\"it\":{extra}}}",
                    esc(&rname),
                    esc(&i.name())
                )
            }
            None => format!("{{\"def\":{def},\"args\":{args},\"inst\":null,\"unres\":true}}"),
        }
    }
    /// for each type argument that is an iterator: the instance of its `next`
    fn iter_extras(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for k in &a.0 {
            if let GenericArgKind::Type(t) = k {
                if self.implements(*t, self.iter_trait) {
                    if let Some(nd) = self.next_def {
                        let ga = GenericArgs(vec![GenericArgKind::Type(*t)]);
                        if let Ok(i) = Instance::resolve(nd, &ga) {
                            let id = self.inst(i);
                            let ti = self.ty(*t);
                            v.push(format!("[{ti},{id}]"));
                        }
                    }
                }
            }
        }
        list(v)
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, esc(&v.name)));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let sp = self.span(s.source_info.span);
                        Some(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), sp))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::StorageLive(l) => Some(format!("[\"sl\",{l}]")),
                    StatementKind::StorageDead(l) => Some(format!("[\"x\",{l}]")),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        Some(format!("[\"assume\",{}]", self.operand(o)))
                    }
                    StatementKind::Intrinsic(_) => Some("[\"?\"]".to_string()),
                    _ => None,
                };
                if let Some(x) = x {
                    st.push(x);
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!(
                        "[\"switch\",{},{},{}]",
                        self.operand(discr),
                        list(br),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok();
                    let mut glue = "null".to_string();
                    if let Some(t) = t {
                        glue = self.ty(t).to_string();
                    }
                    format!("[\"drop\",{},{target},{glue}]", self.place(place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.callee(d, &a),
                            _ => format!("{{\"dyn\":{}}}", self.operand(func)),
                        },
                        _ => format!("{{\"dyn\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!(
                        "[\"call\",{f},{},{},{}]",
                        list(a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len),
                            self.operand(index)
                        ),
                        AssertMessage::Overflow(op, a, c) => format!(
                            "[\"overflow\",\"{op:?}\",{},{}]",
                            self.operand(a),
                            self.operand(c)
                        ),
                        AssertMessage::DivisionByZero(_) => "[\"div0\"]".into(),
                        AssertMessage::RemainderByZero(_) => "[\"rem0\"]".into(),
                        AssertMessage::OverflowNeg(_) => "[\"negovf\"]".into(),
                        m => format!("[\"other\",{}]", esc(&format!("{m:?}").chars().take(60).collect::<String>())),
                    };
                    format!("[\"assert\",{},{expected},{m},{target}]", self.operand(cond))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{t},\"l\":{sp}}}", list(st)));
        }
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"names\":{},\"blocks\":{}}}",
            list(locals),
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            list(names),
            list(blocks)
        )
    }
}

fn inst_def_name(i: &Instance) -> String {
    match i.kind {
        InstanceKind::Item | InstanceKind::Intrinsic => match CrateItem::try_from(*i) {
            Ok(c) => c.name(),
            Err(_) => i.name(),
        },
        _ => i.name(),
    }
}

fn find_assoc(tcx: TyCtxt<'_>, tr: Option<rustc_span::def_id::DefId>, name: &str) -> Option<FnDef> {
    let tr = tr?;
    for it in tcx.associated_items(tr).in_definition_order() {
        if it.opt_name().map(|n| n.as_str() == name).unwrap_or(false) {
            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
            let st: Ty = rustc_public::rustc_internal::stable(t);
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = st.kind() {
                return Some(d);
            }
        }
    }
    None
}

fn dump(tcx: TyCtxt<'_>, out: String) -> ControlFlow<()> {
    let root_prefix = std::env::var("MIRDUMP_ROOTS").unwrap_or("h_".into());
    let mut subst = HashMap::new();
    let mut tsubst = HashMap::new();
    let mut stop = vec![];
    if let Ok(p) = std::env::var("MIRDUMP_CONF") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(s) = l.strip_prefix("stop ") {
                stop.push(s.trim().to_string());
            } else if let Some(s) = l.strip_prefix("tmodel ") {
                if let Some((a, b)) = s.split_once("=>") {
                    tsubst.insert(a.trim().to_string(), b.trim().to_string());
                }
            } else if let Some(s) = l.strip_prefix("model ") {
                if let Some((a, b)) = s.split_once("=>") {
                    subst.insert(a.trim().to_string(), b.trim().to_string());
                }
            }
        }
    }
    let iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
    let de_trait = None;
    let into_trait = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator);
    let mut d = Dumper {
        tcx,
        ty_ids: HashMap::new(),
        ty_queue: VecDeque::new(),
        inst_ids: HashMap::new(),
        inst_queue: VecDeque::new(),
        alloc_ids: HashMap::new(),
        alloc_queue: VecDeque::new(),
        files: vec![],
        models: HashMap::new(),
        subst,
        tsubst,
        stop,
        next_def: find_assoc(tcx, iter_trait, "next"),
        nextback_def: find_assoc(tcx, de_trait, "next_back"),
        intoiter_def: find_assoc(tcx, into_trait, "into_iter"),
        iter_trait,
        de_trait,
        intoiter_trait: into_trait,
        used_models: Default::default(),
    };
    let local = rustc_public::local_crate();
    let mut roots = vec![];
    let mut fns: Vec<(String, FnDef)> = vec![];
    for f in local.fn_defs() {
        fns.push((f.name(), f));
    }
    for (name, f) in &fns {
        let short = name.rsplit("::").next().unwrap().to_string();
        if name.contains("::m::") {
            d.models.insert(short, *f);
        }
    }
    for (name, f) in &fns {
        let short = name.rsplit("::").next().unwrap().to_string();
        if short.starts_with(&root_prefix) && !name.contains("::m::") {
            if let Ok(i) = Instance::resolve(*f, &GenericArgs(vec![])) {
                let id = d.inst(i);
                roots.push(format!("{}:{}", esc(&short), id));
            }
        }
    }
    // statics of the crate and of the crates listed in MIRDUMP_STATICS
    let mut statics = vec![];
    let mut crates = vec![local.clone()];
    for n in std::env::var("MIRDUMP_STATICS").unwrap_or_default().split(',') {
        crates.extend(rustc_public::find_crates(n));
    }
    let mut adts = vec![];
    let mut fnlist = vec![];
    for c in &crates {
        for s in c.statics() {
            let t = d.ty(s.ty());
            statics.push(format!("[{},{}]", esc(&s.name()), t));
        }
        for a in c.adts() {
            adts.push(format!("[{},{}]", esc(&a.name()), esc(&c.name)));
        }
        for f in c.fn_defs() {
            let sp = d.span(f.span());
            fnlist.push(format!("[{},{},{}]", esc(&f.name()), esc(&c.name), sp));
        }
    }
    let mut insts = String::new();
    let mut types: Vec<String> = vec![];
    let mut allocs: Vec<String> = vec![];
    loop {
        if let Some((id, i)) = d.inst_queue.pop_front() {
            let name = i.name();
            let def = inst_def_name(&i);
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let args = i.args();
            let aj = d.args_json(&args);
            let stop = d.stopped(&def);
            let body = if stop || matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::Virtual{..} | InstanceKind::LlvmIntrinsic) {
                None
            } else {
                i.body()
            };
            let intr = match i.kind {
                InstanceKind::Intrinsic => i.intrinsic_name().map(|s| esc(&s)).unwrap_or("null".into()),
                _ => "null".into(),
            };
            let (krate, sp) = match CrateItem::try_from(i) {
                Ok(c) => (c.krate().name, d.span(c.span())),
                Err(_) => ("?".to_string(), "null".to_string()),
            };
            let bj = match &body {
                Some(b) => d.body(b),
                None => "null".into(),
            };
            if !insts.is_empty() {
                insts.push_str(",\n");
            }
            let _ = write!(
                insts,
                "\"{id}\":{{\"name\":{},\"def\":{},\"kind\":\"{kind}\",\"crate\":{},\"span\":{sp},\"args\":{aj},\"intr\":{intr},\"body\":{bj}}}",
                esc(&name),
                esc(&def),
                esc(&krate)
            );
            continue;
        }
        if let Some((id, t)) = d.ty_queue.pop_front() {
            let j = d.ty_json(t);
            debug_assert_eq!(id, types.len());
            types.push(j);
            continue;
        }
        if let Some((id, a)) = d.alloc_queue.pop_front() {
            let ga: GlobalAlloc = a.into();
            let j = match ga {
                GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", d.inst(i)),
                GlobalAlloc::Memory(m) => d.alloc_json(&m),
                GlobalAlloc::Static(s) => {
                    let t = d.ty(s.ty());
                    let n = esc(&s.name());
                    match s.eval_initializer() {
                        Ok(m) => format!("{{\"static\":{n},\"t\":{t},\"init\":{}}}", d.alloc_json(&m)),
                        Err(_) => format!("{{\"static\":{n},\"t\":{t}}}"),
                    }
                }
                GlobalAlloc::VTable(..) => "{\"vtable\":true}".into(),
                _ => "{\"other\":true}".into(),
            };
            let _ = id;
            allocs.push(j);
            continue;
        }
        break;
    }
    let files: Vec<String> = d.files.iter().map(|f| esc(f)).collect();
    let um: Vec<String> = d.used_models.iter().map(|f| esc(f)).collect();
    let s = format!(
        "{{\"roots\":{{{}}},\n\"insts\":{{{}}},\n\"types\":[{}],\n\"allocs\":[{}],\n\"files\":{},\n\"statics\":{},\n\"adts\":{},\n\"fns\":{},\n\"models\":{}}}\n",
        roots.join(","),
        insts,
        types.join(",\n"),
        allocs.join(",\n"),
        list(files),
        list(statics),
        list(adts),
        list(fnlist),
        list(um)
    );
    std::fs::write(out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let real = args.get(1).cloned().unwrap_or("rustc".into());
    if args.len() > 1 {
        args.remove(0);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("MIRDUMP_OUT").ok();
    if let (Some(n), Some(out)) = (name, out) {
        if n == want && !args.iter().any(|a| a.starts_with("--print")) {
            let r = run_with_tcx!(&args, |tcx| dump(tcx, out.clone()));
            if r.is_err() {
                std::process::exit(1);
            }
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(&real).args(&args[1..]).exec();
    eprintln!("mirdump: cannot exec {real}: {e}");
    std::process::exit(1);
}
