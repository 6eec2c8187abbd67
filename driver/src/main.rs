//! vpdump: a rustc driver that prints the type-checked program (monomorphised MIR, type layouts,
//! const-evaluated statics, visibility and trait-impl facts) of the crate it compiles, as JSON.
//! It never runs the program. Output: one JSON document in $VPDUMP_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, mut f: F) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct D {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    adts: HashMap<String, String>,
    insts: HashMap<String, usize>, // mangled -> id
    inst_meta: Vec<(Instance, String)>,
    queue: VecDeque<usize>,
    allocs: HashMap<usize, String>,
    alloc_queue: Vec<AllocId>,
    statics: HashMap<String, String>,
    files: HashMap<String, usize>,
    file_out: Vec<String>,
    generic: bool,
}

/// Library bodies worth following: small combinators of `core`.  Everything else outside the crate is
/// modelled by contract in the analysis.
fn follow(krate: &str, n: &str) -> bool {
    if krate != "core" {
        return false;
    }
    let n = n.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
    let n = n.trim_start_matches("std::").trim_start_matches("core::");
    let allow = [
        "option::", "result::", "cmp::", "convert::", "ops::", "num::", "mem::replace", "mem::take", "mem::swap", "clone::", "default::",
        "bool::", "hint::must_use", "T as ", "U as ", "A as ", "i32", "u32", "i64", "u64", "usize", "u8", "i8", "u16", "i16", "f32",
        "iter::IntoIterator", "I as ", "prelude::", "array::",
    ];
    let deny = ["ops::function", "ops::index", "num::flt2dec", "num::imp", "num::fmt", "num::dec2flt"];
    !n.contains("fmt::") && !n.contains("SliceIndex") && allow.iter().any(|d| n.starts_with(d)) && !deny.iter().any(|d| n.starts_with(d))
}

impl D {
    fn file(&mut self, f: &str) -> usize {
        if let Some(i) = self.files.get(f) {
            return *i;
        }
        let i = self.file_out.len();
        self.files.insert(f.to_string(), i);
        self.file_out.push(js(f));
        i
    }

    fn span(&mut self, s: Span) -> String {
        let f = s.get_filename();
        let l = s.get_lines();
        format!("[{},{},{}]", self.file(&f), l.start_line, l.end_line)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let k = self.tykind(t);
        let lay = if self.generic { "null".into() } else { self.layout(t) };
        self.ty_out[i] = format!("{{\"k\":{},\"s\":{},\"l\":{}}}", k, js(&format!("{}", t)), lay);
        i
    }

    fn layout(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Dynamic(..)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => {
                return "null".into()
            }
            TyKind::RigidTy(_) => {}
            _ => return "null".into(),
        }
        let Ok(l) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.layout())) else { return "null".into() };
        let Ok(l) = l else { return "null".into() };
        let sh = l.shape();
        let f = match &sh.fields {
            FieldsShape::Primitive => "\"prim\"".to_string(),
            FieldsShape::Union(_) => "\"union\"".to_string(),
            FieldsShape::Array { stride, count } => format!("[\"arr\",{},{}]", stride.bytes(), count),
            FieldsShape::Arbitrary { offsets } => {
                format!("[\"off\",{}]", list(offsets.iter(), |o| o.bytes().to_string()))
            }
        };
        let v = match &sh.variants {
            VariantsShape::Empty => "null".to_string(),
            VariantsShape::Single { index } => format!("[\"single\",{}]", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let (a, b) = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => {
                        (format!("{:?}", value), value_size(value))
                    }
                };
                let e = match tag_encoding {
                    TagEncoding::Direct => "[\"direct\"]".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[\"niche\",{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                format!(
                    "[\"multi\",{},{},{},{},{}]",
                    js(&a),
                    b,
                    e,
                    tag_field,
                    list(variants.iter(), |v| list(v.offsets.iter(), |o| o.bytes().to_string()))
                )
            }
        };
        format!("[{},{},{}]", sh.size.bytes(), f, v)
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<_> = a.0.clone();
        let mut o = vec![];
        for x in v {
            match x {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => o.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => o.push(match c.eval_target_usize() {
                    Ok(v) => format!("[\"const\",{}]", v),
                    Err(_) => format!("[\"constp\",{}]", js(&format!("{:?}", c.kind()))),
                }),
            }
        }
        format!("[{}]", o.join(","))
    }

    fn adt(&mut self, def: AdtDef, args: &GenericArgs) -> String {
        let name = def.name().to_string();
        if !self.adts.contains_key(&name) {
            self.adts.insert(name.clone(), String::new());
            let kind = format!("{:?}", def.kind());
            let mut vs = vec![];
            if def.kind() != AdtKind::Union {
                for v in def.variants() {
                    let d = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    let fs = list(v.fields(), |f| js(&f.name.to_string()));
                    vs.push(format!("[{},{},{}]", js(&v.name().to_string()), d, fs));
                }
            }
            let sp = def.span();
            let s = self.span(sp);
            let o = format!("{{\"kind\":{},\"variants\":[{}],\"span\":{}}}", js(&kind), vs.join(","), s);
            self.adts.insert(name.clone(), o);
        }
        // field types of this instantiation
        let mut ft = vec![];
        if def.kind() != AdtKind::Union && !self.generic {
            for v in def.variants() {
                let fs: Vec<_> = v.fields();
                let mut l = vec![];
                for f in fs {
                    l.push(self.ty(f.ty_with_args(args)).to_string());
                }
                ft.push(format!("[{}]", l.join(",")));
            }
        }
        format!("[{}]", ft.join(","))
    }

    fn tykind(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "[\"bool\"]".into(),
                RigidTy::Char => "[\"char\"]".into(),
                RigidTy::Int(i) => format!("[\"int\",1,{}]", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("[\"int\",0,{}]", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("[\"float\",{}]", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Adt(def, args) => {
                    let ft = self.adt(def, &args);
                    let ga = self.gargs(&args);
                    format!("[\"adt\",{},{},{},{}]", js(&def.name().to_string()), ga, ft, if def.is_box() { 1 } else { 0 })
                }
                RigidTy::Foreign(_) => "[\"foreign\"]".into(),
                RigidTy::Str => "[\"str\"]".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"array\",{},{}]", e, n)
                }
                RigidTy::Pat(t, _) => format!("[\"pat\",{}]", self.ty(t)),
                RigidTy::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("[\"ptr\",{},{}]", self.ty(e), (m == Mutability::Mut) as u8),
                RigidTy::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), (m == Mutability::Mut) as u8),
                RigidTy::FnDef(d, args) => {
                    let a = self.gargs(&args);
                    if self.generic {
                        format!("[\"fndef\",{},{},null]", js(&d.name().to_string()), a)
                    } else {
                        let id = match Instance::resolve(d, &args) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        };
                        format!("[\"fndef\",{},{},{}]", js(&d.name().to_string()), a, id)
                    }
                }
                RigidTy::FnPtr(_) => "[\"fnptr\"]".into(),
                RigidTy::Closure(d, args) => {
                    if self.generic {
                        format!("[\"closure\",{},null]", js(&d.name().to_string()))
                    } else {
                        let id = match Instance::resolve_closure(d, &args, ClosureKind::FnMut) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        };
                        let once = match Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        };
                        format!("[\"closure\",{},{},{}]", js(&d.name().to_string()), id, once)
                    }
                }
                RigidTy::Dynamic(..) => "[\"dyn\"]".into(),
                RigidTy::Never => "[\"never\"]".into(),
                RigidTy::Tuple(ts) => {
                    let l: Vec<_> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("[\"tuple\",[{}]]", l.join(","))
                }
                _ => "[\"other\"]".into(),
            },
            TyKind::Param(p) => format!("[\"param\",{}]", js(&p.name)),
            TyKind::Alias(_, a) => format!("[\"alias\",{}]", js(&a.def_id.name().to_string())),
            _ => "[\"other\"]".into(),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        let m = i.mangled_name().to_string();
        let key = if i.def.is_foreign() { format!("{}#{:?}", m, i.kind) } else { format!("{}#{:?}", m, i.kind) };
        if let Some(x) = self.insts.get(&key) {
            return *x;
        }
        let id = self.inst_meta.len();
        self.insts.insert(key, id);
        self.inst_meta.push((i, String::new()));
        self.queue.push_back(id);
        id
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        let mut o = String::from("{\"b\":\"");
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(o, "{:02x}", b);
                }
                None => o.push_str(".."),
            }
        }
        o.push_str("\",\"p\":[");
        let mut first = true;
        for (off, p) in &a.provenance.ptrs {
            if !first {
                o.push(',');
            }
            first = false;
            let idx = p.0.to_index();
            self.alloc_queue.push(p.0);
            let _ = write!(o, "[{},{}]", off, idx);
        }
        o.push_str("]}");
        o
    }

    fn drain_allocs(&mut self) {
        while let Some(id) = self.alloc_queue.pop() {
            let k = id.to_index();
            if self.allocs.contains_key(&k) {
                continue;
            }
            self.allocs.insert(k, String::new());
            let s = match GlobalAlloc::from(id) {
                GlobalAlloc::Function(i) => {
                    let x = self.inst(i);
                    format!("{{\"fn\":{}}}", x)
                }
                GlobalAlloc::VTable(t, _) => format!("{{\"vtable\":{}}}", self.ty(t)),
                GlobalAlloc::Static(s) => {
                    let n = self.stat(s);
                    format!("{{\"static\":{}}}", js(&n))
                }
                GlobalAlloc::Memory(m) => {
                    let a = self.alloc(&m);
                    format!("{{\"mem\":{}}}", a)
                }
                GlobalAlloc::TypeId { ty } => format!("{{\"typeid\":{}}}", self.ty(ty)),
            };
            self.allocs.insert(k, s);
        }
    }

    fn stat(&mut self, s: StaticDef) -> String {
        let n = s.name().to_string();
        if !self.statics.contains_key(&n) {
            self.statics.insert(n.clone(), String::new());
            let t = self.ty(s.ty());
            let sp = s.span();
            let sp = self.span(sp);
            let a = match s.eval_initializer() {
                Ok(a) => self.alloc(&a),
                Err(_) => "null".into(),
            };
            self.statics.insert(n.clone(), format!("{{\"ty\":{},\"span\":{},\"a\":{}}}", t, sp, a));
        }
        n
    }

    fn cst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[\"c\",{},{}]", t, self.alloc(a)),
            ConstantKind::ZeroSized => format!("[\"z\",{}]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("[\"c\",{},{}]", t, self.alloc(a)),
                k => match tc.eval_target_usize() {
                    Ok(v) => format!("[\"n\",{},{}]", t, v),
                    Err(_) => format!("[\"u\",{},{}]", t, js(&format!("{:?}", k))),
                },
            },
            ConstantKind::Unevaluated(u) => {
                if !self.generic {
                    format!("[\"u\",{},{}]", t, js(&u.def.name().to_string()))
                } else {
                    // try to print constant strings of generic bodies (field names etc.)
                    format!("[\"u\",{},{}]", t, js(&format!("{}#{:?}", u.def.name(), u.promoted)))
                }
            }
            ConstantKind::Param(p) => format!("[\"u\",{},{}]", t, js(&p.name)),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "[\"*\"]".into(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, *from_end as u8)
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, *from_end as u8),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.cst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", js(&format!("{:?}", k)), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = if self.generic {
                            self.adt(*d, a);
                            self.ty(d.ty_with_args(a))
                        } else {
                            self.ty(d.ty_with_args(a))
                        };
                        let f = f.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"adt\",{},{},{},{}]", js(&d.name().to_string()), v.to_index(), t, f)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"closure\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, m) => format!("[\"rawptr\",{},{}]", self.ty(*t), (*m == Mutability::Mut) as u8),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, list(ops.iter(), |o| self.op(o)))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y)),
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), o, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", js(&format!("{:?}", k)), self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"Reborrow\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.op(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
        }
    }

    fn unw(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.to_string(),
            _ => "null".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut o = String::from("{\"locals\":");
        o.push_str(&list(b.locals().iter(), |l| self.ty(l.ty).to_string()));
        let _ = write!(o, ",\"argc\":{}", b.arg_locals().len());
        if let Some(s) = b.spread_arg() {
            let _ = write!(o, ",\"spread\":{}", s);
        }
        let names = list(
            b.var_debug_info.iter().filter(|v| v.local().is_some()),
            |v| format!("[{},{}]", v.local().unwrap(), js(&v.name.to_string())),
        );
        let _ = write!(o, ",\"names\":{}", names);
        let sp = self.span(b.span);
        let _ = write!(o, ",\"span\":{}", sp);
        o.push_str(",\"bb\":");
        let bbs = list(b.blocks.iter(), |bb| {
            let mut st = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        Some(format!("[\"=\",{},{}", p, self.rv(r)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"sd\",{},{}", self.place(place), variant_index.to_index()))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => Some(format!("[\"assume\",{}", self.op(o))),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => Some("[\"copynon\"".into()),
                    _ => None,
                };
                if let Some(x) = x {
                    let l = s.source_info.span.get_lines().start_line;
                    st.push(format!("{},{}]", x, l));
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{}]",
                    self.op(discr),
                    list(targets.branches(), |(v, t)| format!("[{},{}]", v, t)),
                    targets.otherwise()
                ),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    format!("[\"drop\",{},{},{}]", self.place(place), target, Self::unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = self.op(func);
                    let a = list(args.iter(), |a| self.op(a));
                    let d = self.place(destination);
                    let t = target.map(|x| x.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, a, d, t, Self::unw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (k, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".to_string(), vec![len.clone(), index.clone()]),
                        AssertMessage::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x.clone(), y.clone()]),
                        AssertMessage::OverflowNeg(x) => ("overflow:neg".into(), vec![x.clone()]),
                        AssertMessage::DivisionByZero(x) => ("divzero".into(), vec![x.clone()]),
                        AssertMessage::RemainderByZero(x) => ("remzero".into(), vec![x.clone()]),
                        m => (format!("{:?}", m), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.op(cond),
                        *expected as u8,
                        js(&k),
                        list(ops.iter(), |o| self.op(o)),
                        target,
                        Self::unw(unwind)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("[[{}],{},{}]", st.join(","), t, line)
        });
        o.push_str(&bbs);
        o.push('}');
        o
    }

    fn run_queue(&mut self) {
        let mut done: HashSet<usize> = HashSet::new();
        loop {
            self.drain_allocs();
            let Some(id) = self.queue.pop_front() else { break };
            if !done.insert(id) {
                continue;
            }
            let i = self.inst_meta[id].0;
            let name = i.name().to_string();
            let kind = format!("{:?}", i.kind);
            let dname = i.def.name().to_string();
            let krate = i.def.krate().name.to_string();
            let local = i.def.krate().is_local;
            let args = self.gargs(&i.args());
            let mut extra = String::new();
            if let Some(n) = i.intrinsic_name() {
                let _ = write!(extra, ",\"intr\":{}", js(&n.to_string()));
            }
            let shim_drop = kind == "Shim" && name.contains("drop_in_place");
            let want = local
                || (!(kind == "Virtual" || kind == "Intrinsic") && !shim_drop && follow(&krate, &dname));
            let want = want && !(kind.starts_with("Virtual"));
            let mut body = String::new();
            let has = i.has_body();
            if want && has {
                if let Some(b) = i.body() {
                    body = format!(",\"body\":{}", self.body(&b));
                }
            }
            let sp = i.def.span();
            let sp = self.span(sp);
            let isty = self.ty(i.ty());
            let o = format!(
                "{{\"name\":{},\"def\":{},\"kind\":{},\"krate\":{},\"local\":{},\"args\":{},\"ty\":{},\"has\":{},\"span\":{}{}{}}}",
                js(&name), js(&dname), js(&kind), js(&krate), local as u8, args, isty, has as u8, sp, extra, body
            );
            self.inst_meta[id].1 = o;
        }
    }
}

trait KrateInfo {
    fn is_foreign(&self) -> bool;
}
impl KrateInfo for InstanceDef {
    fn is_foreign(&self) -> bool {
        !self.krate().is_local
    }
}

fn value_size(p: &Primitive) -> usize {
    match p {
        Primitive::Int { length, .. } => match length {
            IntegerLength::I8 => 1,
            IntegerLength::I16 => 2,
            IntegerLength::I32 => 4,
            IntegerLength::I64 => 8,
            IntegerLength::I128 => 16,
        },
        Primitive::Float { .. } => 4,
        Primitive::Pointer(_) => 8,
    }
}

/// every place where the source of the crate itself says unsafe
struct Unsafe<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    out: Vec<String>,
}

impl<'tcx> Unsafe<'tcx> {
    fn say(&mut self, what: &str, id: rustc_hir::HirId, span: rustc_span::Span) {
        let sm = self.tcx.sess.source_map();
        let owner = self.tcx.def_path_str(id.owner.to_def_id());
        self.out.push(format!(
            "[{},{},{},{}]",
            js(what),
            js(&owner),
            js(&sm.span_to_string(span, rustc_span::RemapPathScopeComponents::DEBUGINFO)),
            span.in_external_macro(sm) as u8
        ));
    }
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;

    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }

    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.say("block", b.hir_id, b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }

    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if t.safety.is_unsafe() {
                        self.say("impl", i.hir_id(), i.span);
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.say("extern", i.hir_id(), i.span),
            rustc_hir::ItemKind::Fn { sig, .. } if sig.header.is_unsafe() => self.say("fn", i.hir_id(), i.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }

    fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
        if let rustc_hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if sig.header.is_unsafe() {
                self.say("fn", i.hir_id(), i.span);
            }
        }
        rustc_hir::intravisit::walk_impl_item(self, i);
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let mut d = D {
        tys: HashMap::new(),
        ty_out: vec![],
        adts: HashMap::new(),
        insts: HashMap::new(),
        inst_meta: vec![],
        queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_queue: vec![],
        statics: HashMap::new(),
        files: HashMap::new(),
        file_out: vec![],
        generic: false,
    };
    let mut roots = vec![];
    let mut generics: Vec<rustc_public::CrateItem> = vec![];
    for it in rustc_public::all_local_items() {
        let k = it.kind();
        match k {
            rustc_public::ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generics.push(it);
                } else if let Ok(i) = Instance::try_from(it) {
                    let id = d.inst(i);
                    roots.push((it.name().to_string(), id));
                }
            }
            _ => {}
        }
    }
    for s in rustc_public::local_crate().statics() {
        d.stat(s);
    }
    d.run_queue();
    // types of every local ADT without generics, so that layouts of the public model are present
    let mut public = vec![];
    for a in rustc_public::local_crate().adts() {
        let g = a.generics_of();
        let needs = g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime));
        if !needs && g.parent.is_none() {
            let t = a.ty();
            let has_lt = !g.params.is_empty();
            if !has_lt {
                let id = d.ty(t);
                public.push(format!("[{},{}]", js(&a.name().to_string()), id));
            }
        }
    }
    d.run_queue();
    // generic bodies (derived serde impls and the like): not monomorphised
    d.generic = true;
    let mut gen_out = vec![];
    for it in &generics {
        if let Some(b) = it.body() {
            let body = d.body(&b);
            let sp = it.span();
            let sp = d.span(sp);
            gen_out.push(format!("{{\"name\":{},\"span\":{},\"body\":{}}}", js(&it.name().to_string()), sp, body));
        }
    }
    d.drain_allocs();
    // impls + visibility through the internal API
    let mut impls = vec![];
    for i in rustc_public::local_crate().trait_impls() {
        let tr = i.trait_impl().value;
        impls.push(format!("[{},{}]", js(&tr.def_id.name().to_string()), js(&format!("{}", tr.self_ty()))));
    }
    let mut vis = vec![];
    let ev = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
        let dk = tcx.def_kind(id);
        use rustc_hir::def::DefKind as K;
        if matches!(dk, K::Fn | K::AssocFn | K::Struct | K::Enum | K::Trait | K::Static { .. } | K::Const { .. }) {
            let p = tcx.def_path_str(id.to_def_id());
            let gen = matches!(dk, K::Fn | K::AssocFn) as u8;
            vis.push(format!("[{},{},{},{}]", js(&p), js(&format!("{:?}", dk)), ev.is_reachable(id) as u8, gen));
        }
    }
    let mut us = Unsafe { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut us);
    let mut o = String::from("{");
    let _ = write!(o, "\"roots\":{}", list(roots.iter(), |(n, i)| format!("[{},{}]", js(n), i)));
    let _ = write!(o, ",\"types\":[{}]", d.ty_out.join(",\n"));
    let mut adts: Vec<_> = d.adts.iter().collect();
    adts.sort();
    let _ = write!(o, ",\"adts\":{{{}}}", adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
    let mut st: Vec<_> = d.statics.iter().collect();
    st.sort();
    let _ = write!(o, ",\"statics\":{{{}}}", st.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
    let mut al: Vec<_> = d.allocs.iter().collect();
    al.sort();
    let _ = write!(o, ",\"allocs\":{{{}}}", al.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"));
    let _ = write!(o, ",\"insts\":[{}]", d.inst_meta.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",\n"));
    let _ = write!(o, ",\"generics\":[{}]", gen_out.join(",\n"));
    let _ = write!(o, ",\"impls\":[{}]", impls.join(",\n"));
    let _ = write!(o, ",\"vis\":[{}]", vis.join(",\n"));
    let _ = write!(o, ",\"unsafe\":[{}]", us.out.join(",\n"));
    let _ = write!(o, ",\"public\":[{}]", public.join(","));
    let _ = write!(o, ",\"files\":[{}]", d.file_out.join(","));
    o.push('}');
    if let Ok(p) = std::env::var("VPDUMP_OUT") {
        std::fs::write(p, o).expect("write dump");
    }
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let _ = rustc_public::run_with_tcx!(&args, dump);
}
