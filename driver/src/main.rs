//! Compiler driver: compiles the crate it is handed exactly as rustc would, and, when that crate is
//! the analysis harness, writes every function instance reachable from its `root_*` functions -
//! monomorphised MIR, types, layouts-resolved constants - as one JSON document.  Nothing is run.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod audit;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Dump {
    ty_ids: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    seen: HashMap<String, ()>,
    queue: VecDeque<Instance>,
    fns: Vec<String>,
    statics: HashMap<String, String>,
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.ty_ids.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_desc(t);
        self.ty_out[id] = s;
        id
    }

    fn garg_tys(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => js(&n.to_string()),
                    Err(_) => js("?"),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_desc(&mut self, t: Ty) -> String {
        let name = js(&format!("{}", t));
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return format!("{{\"k\":\"other\",\"n\":{}}}", name),
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"b\":{}}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"b\":{}}}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":{}}}", js(&format!("{:?}", f))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::Array(e, n) => format!(
                "{{\"k\":\"array\",\"e\":{},\"len\":{}}}",
                self.ty(e),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            RigidTy::RawPtr(e, m) | RigidTy::Ref(_, e, m) => format!(
                "{{\"k\":{},\"e\":{},\"mut\":{}}}",
                if t.kind().is_ref() { "\"ref\"" } else { "\"ptr\"" },
                self.ty(e),
                m == Mutability::Mut
            ),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":[{}]}}", v.join(","))
            }
            RigidTy::FnDef(d, a) => {
                let k = match Instance::resolve(d, &a) {
                    Ok(i) => js(&self.inst(&i)),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"n\":{},\"fn\":{}}}", name, k)
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", name),
            RigidTy::Closure(d, a) => {
                let ups = self.closure_upvars(&a);
                format!("{{\"k\":\"closure\",\"n\":{},\"def\":{},\"f\":{}}}", name, js(&d.name()), ups)
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{}}}", name),
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Union => "union",
                    AdtKind::Struct => "struct",
                };
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                    }
                    let dv = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(&v.name()), dv, fs.join(",")));
                }
                format!(
                    "{{\"k\":{},\"n\":{},\"def\":{},\"crate\":{},\"args\":{},\"v\":[{}]}}",
                    js(kind),
                    name,
                    js(&def.name()),
                    js(&def.krate().name),
                    self.garg_tys(&args),
                    vs.join(",")
                )
            }
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", name),
        }
    }

    fn closure_upvars(&mut self, a: &GenericArgs) -> String {
        // the last type argument of a closure is the tuple of its captured variables' types
        for g in a.0.iter().rev() {
            if let GenericArgKind::Type(t) = g {
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    return format!("[{}]", v.join(","));
                }
            }
        }
        "[]".into()
    }

    fn inst(&mut self, i: &Instance) -> String {
        let key = i.mangled_name();
        if !self.seen.contains_key(&key) {
            self.seen.insert(key.clone(), ());
            self.queue.push_back(i.clone());
        }
        key
    }

    // ---- constants -------------------------------------------------------------------------
    fn rd(b: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for k in (0..n).rev() {
            v = (v << 8) | (*b.get(off + k)?)? as u128;
        }
        Some(v)
    }

    fn ptr_target(&mut self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let addend = Self::rd(&a.bytes, off, 8)? as usize;
        let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        Some((GlobalAlloc::from(p.1 .0), addend))
    }

    fn cval(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "[\"?\"]".into();
        }
        let tid = self.ty(t);
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return "[\"?\"]".into(),
        };
        let size = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return "[\"?\"]".into(),
        };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::rd(&a.bytes, off, size) {
                Some(v) if a.provenance.ptrs.iter().all(|(o, _)| *o < off || *o >= off + size) => {
                    format!("[\"i\",\"{}\",{}]", v, tid)
                }
                _ => "[\"?\"]".into(),
            },
            RigidTy::Int(_) => match Self::rd(&a.bytes, off, size) {
                Some(v) => {
                    let sh = 128 - size * 8;
                    let v = ((v << sh) as i128) >> sh;
                    format!("[\"i\",\"{}\",{}]", v, tid)
                }
                _ => "[\"?\"]".into(),
            },
            RigidTy::Float(f) => match Self::rd(&a.bytes, off, size) {
                Some(v) => {
                    let s = match f {
                        FloatTy::F32 => format!("{:?}", f32::from_bits(v as u32)),
                        FloatTy::F64 => format!("{:?}", f64::from_bits(v as u64)),
                        _ => format!("bits{}", v),
                    };
                    format!("[\"f\",{},{}]", js(&s), tid)
                }
                _ => "[\"?\"]".into(),
            },
            RigidTy::Tuple(ts) => self.cfields(a, off, t, &ts, depth, None, tid),
            RigidTy::FnDef(..) => format!("[\"zst\",{}]", tid),
            RigidTy::Closure(_, _) => {
                if size == 0 {
                    format!("[\"zst\",{}]", tid)
                } else {
                    "[\"?\"]".into()
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return "[\"?\"]".into();
                }
                let v: Vec<String> = (0..n).map(|k| self.cval(a, off + k * es, e, depth + 1)).collect();
                format!("[\"arr\",[{}],{}]", v.join(","), tid)
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let (ga, add) = match self.ptr_target(a, off) {
                    Some(x) => x,
                    None => {
                        // dangling / integer pointers (empty slices etc.)
                        if let TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str) = e.kind() {
                            if Self::rd(&a.bytes, off + 8, 8) == Some(0) {
                                return format!("[\"bytes\",[],{}]", tid);
                            }
                        }
                        if e.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false) {
                            return format!("[\"ref\",[\"zst\",{}],{}]", self.ty(e), tid);
                        }
                        return "[\"?\"]".into();
                    }
                };
                let mem = match ga {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => {
                        let _ = s;
                        return format!("[\"static\",{},{}]", js(&s.name()), tid);
                    }
                    _ => return "[\"?\"]".into(),
                };
                match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => self.cbytes(&mem, a, off, add, tid),
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        if matches!(el.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                            return self.cbytes(&mem, a, off, add, tid);
                        }
                        let n = Self::rd(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                        let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if n > 4096 {
                            return "[\"?\"]".into();
                        }
                        let v: Vec<String> =
                            (0..n).map(|k| self.cval(&mem, add + k * es, el, depth + 1)).collect();
                        format!("[\"slice\",[{}],{}]", v.join(","), tid)
                    }
                    TyKind::RigidTy(RigidTy::Array(el, n))
                        if matches!(el.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) =>
                    {
                        let n = n.eval_target_usize().unwrap_or(0) as usize;
                        let v: Vec<String> = (0..n)
                            .map(|k| match mem.bytes.get(add + k) {
                                Some(Some(b)) => b.to_string(),
                                _ => "-1".into(),
                            })
                            .collect();
                        format!("[\"bytes\",[{}],{}]", v.join(","), tid)
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"?\"]".into(),
                    _ => {
                        let inner = self.cval(&mem, add, e, depth + 1);
                        format!("[\"ref\",{},{}]", inner, tid)
                    }
                }
            }
            RigidTy::FnPtr(_) => {
                if let Some((GlobalAlloc::Function(i), _)) = self.ptr_target(a, off) {
                    let k = self.inst(&i);
                    return format!("[\"fn\",{},{}]", js(&k), tid);
                }
                "[\"?\"]".into()
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return "[\"?\"]".into();
                }
                let shape = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return "[\"?\"]".into(),
                };
                let vidx: usize = match &shape.variants {
                    VariantsShape::Empty => return "[\"?\"]".into(),
                    VariantsShape::Single { index } => index.to_index(),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = Self::rd(&a.bytes, off + toff, tsz);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let tv = match tv {
                                    Some(v) => v,
                                    None => return "[\"?\"]".into(),
                                };
                                let mut found = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d & m == tv {
                                        found = Some(v.idx().to_index());
                                    }
                                }
                                match found {
                                    Some(i) => i,
                                    None => return "[\"?\"]".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let tv = match tv {
                                        Some(v) => v,
                                        None => return "[\"?\"]".into(),
                                    };
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    if rel <= e - s {
                                        (s + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        }
                    }
                };
                let vd = match def.variants().into_iter().nth(vidx) {
                    Some(v) => v,
                    None => return "[\"?\"]".into(),
                };
                let fts: Vec<Ty> = vd.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                self.cfields(a, off, t, &fts, depth, Some(vidx), tid)
            }
            _ => "[\"?\"]".into(),
        }
    }

    fn cfields(&mut self, a: &Allocation, off: usize, t: Ty, fts: &[Ty], depth: usize, v: Option<usize>, tid: usize) -> String {
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return "[\"?\"]".into(),
        };
        let offs: Vec<usize> = match (&shape.variants, v) {
            (VariantsShape::Multiple { variants, .. }, Some(v)) => {
                variants[v].offsets.iter().map(|o| o.bytes()).collect()
            }
            _ => match &shape.fields {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                _ => vec![0; fts.len()],
            },
        };
        let mut out = vec![];
        for (i, ft) in fts.iter().enumerate() {
            out.push(self.cval(a, off + offs.get(i).copied().unwrap_or(0), *ft, depth + 1));
        }
        format!("[\"adt\",{},[{}],{}]", v.unwrap_or(0), out.join(","), tid)
    }

    fn cbytes(&mut self, mem: &Allocation, a: &Allocation, off: usize, add: usize, tid: usize) -> String {
        let n = Self::rd(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
        let v: Vec<String> = (0..n)
            .map(|k| match mem.bytes.get(add + k) {
                Some(Some(b)) => b.to_string(),
                _ => "-1".into(),
            })
            .collect();
        format!("[\"bytes\",[{}],{}]", v.join(","), tid)
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let tid = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => self.cval(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => match c.ty().kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, args)) => {
                    match Instance::resolve(d, &args) {
                        Ok(i) => {
                            let k = self.inst(&i);
                            format!("[\"fn\",{},{}]", js(&k), tid)
                        }
                        Err(_) => format!("[\"fnx\",{},{}]", js(&d.name()), tid),
                    }
                }
                _ => format!("[\"zst\",{}]", tid),
            },
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(n) => format!("[\"i\",\"{}\",{}]", n, tid),
                Err(_) => match t.kind() {
                    TyConstKind::Value(_, a) => self.cval(a, 0, c.ty(), 0),
                    TyConstKind::ZSTValue(_) => format!("[\"zst\",{}]", tid),
                    _ => "[\"?\"]".into(),
                },
            },
            _ => "[\"?\"]".into(),
        }
    }

    // ---- bodies ----------------------------------------------------------------------------
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn ops(&mut self, o: &[Operand]) -> String {
        let v: Vec<String> = o.iter().map(|o| self.op(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rval(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},\"raw\"]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                format!("[\"ref\",{},{}]", self.place(p), js(m))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",{},{},{}]", js(&format!("{:?}", b)), self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(x)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), self.ty(*t))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op(o),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, os) => {
                let a = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, fi) => format!(
                        "[\"adt\",{},{},{}]",
                        self.ty(d.ty_with_args(args)),
                        v.to_index(),
                        fi.map(|f| f.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        let k = match Instance::resolve_closure(*d, args, ClosureKind::FnOnce) {
                            Ok(i) => {
                                let _ = i;
                                String::new()
                            }
                            Err(_) => String::new(),
                        };
                        let _ = k;
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"?\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", a, self.ops(os))
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut o = String::new();
        let tys: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: HashMap<usize, String> = HashMap::new();
        for d in &b.var_debug_info {
            if let Some(l) = d.local() {
                names.entry(l).or_insert_with(|| d.name.clone());
            }
        }
        let mut nm: Vec<(usize, String)> = names.into_iter().collect();
        nm.sort();
        let nm: Vec<String> = nm.iter().map(|(l, n)| format!("\"{}\":{}", l, js(n))).collect();
        let _ = write!(
            o,
            "\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":{{{}}},\"blocks\":[",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            tys.join(","),
            nm.join(",")
        );
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(p);
                        let rv = self.rval(r);
                        format!("[\"=\",{},{},{}]", pl, rv, line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{},{}]", self.place(place), variant_index.to_index(), line)
                    }
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(x)) => {
                        format!("[\"assume\",{}]", self.op(x))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"copynon\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count))
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let sp = bb.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!("[\"switch\",{},[{}],{}]", d, v.join(","), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = self.ops(args);
                    let d = self.place(destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        a,
                        d,
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        line
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, extra) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".to_string(), format!("[{},{}]", self.op(len), self.op(index)))
                        }
                        AssertMessage::Overflow(b, x, y) => {
                            (format!("overflow {:?}", b), format!("[{},{}]", self.op(x), self.op(y)))
                        }
                        AssertMessage::DivisionByZero(x) => ("div0".into(), format!("[{}]", self.op(x))),
                        AssertMessage::RemainderByZero(x) => ("rem0".into(), format!("[{}]", self.op(x))),
                        AssertMessage::OverflowNeg(x) => ("overflow Neg".into(), format!("[{}]", self.op(x))),
                        m => (format!("{:?}", m).chars().take(40).collect(), "[]".into()),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.op(cond),
                        expected,
                        js(&k),
                        extra,
                        target,
                        line
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&t);
            let file = sp.get_filename();
            let _ = file;
            o.push('}');
        }
        o.push(']');
        o
    }

    fn closure_info(&mut self, i: &Instance) -> String {
        // (def path of the closure if this instance is a closure body)
        match i.ty().kind() {
            TyKind::RigidTy(RigidTy::Closure(_, _)) => format!(",\"closure\":{}", self.ty(i.ty())),
            _ => String::new(),
        }
    }

    fn drain(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let key = i.mangled_name();
            let (kind, extra) = match i.kind {
                InstanceKind::Item => ("item", String::new()),
                InstanceKind::Intrinsic => {
                    ("intrinsic", format!(",\"intr\":{}", js(&i.intrinsic_name().unwrap_or_default())))
                }
                InstanceKind::Virtual { idx } => ("virtual", format!(",\"idx\":{}", idx)),
                InstanceKind::Shim => ("shim", String::new()),
                _ => ("other", String::new()),
            };
            let krate = js(&i.def.krate().name);
            let span = i.def.span();
            let file = js(&span.get_filename());
            let line = span.get_lines().start_line;
            let args = {
                let a = i.args();
                self.garg_tys(&a)
            };
            let ci = self.closure_info(&i);
            let pkg = i.def.krate().is_local;
            let _ = pkg;
            let body = match (match i.kind { InstanceKind::Virtual { .. } | InstanceKind::Intrinsic => None, _ => i.body() }) {
                Some(b) => {
                    let s = self.body(&b);
                    format!(",{}", s)
                }
                None => String::new(),
            };
            let path = i.def.name();
            let s = format!(
                "{}:{{\"name\":{},\"path\":{},\"crate\":{},\"kind\":{}{},\"args\":{},\"file\":{},\"line\":{}{}{}}}",
                js(&key),
                js(&i.name()),
                js(&path),
                krate,
                js(kind),
                extra,
                args,
                file,
                line,
                ci,
                body
            );
            self.fns.push(s);
        }
    }
}

fn dump() -> ControlFlow<()> {
    let out = match std::env::var("BVH_DUMP") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let mut d = Dump::default();
    let krate = rustc_public::local_crate();
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let name = f.name();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("root_") {
            match Instance::resolve(f, &GenericArgs(vec![])) {
                Ok(i) => {
                    let k = d.inst(&i);
                    roots.push(format!("{}:{}", js(&last), js(&k)));
                }
                Err(e) => eprintln!("root {} unresolved: {:?}", name, e),
            }
        }
    }
    d.drain();
    // every function definition of the crate under analysis (generic bodies included), so that rules
    // can report what was not reached from a root
    let mut defs = vec![];
    let mut seen = HashSet::new();
    for c in rustc_public::find_crates("bvh_anim") {
        for f in c.fn_defs() {
            let n = f.name();
            let sp = f.span();
            let sig = f.fn_sig();
            let sig = sig.skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| js(&format!("{}", t))).collect();
            let outt = js(&format!("{}", sig.output()));
            if seen.insert(f.def_id()) {
                let generic = f
                    .body()
                    .map(|b| {
                        let mut d2 = vec![];
                        // writes / mutable borrows through fields, by field type names, for effect rules
                        for bb in &b.blocks {
                            for s in &bb.statements {
                                if let StatementKind::Assign(p, r) = &s.kind {
                                    if !p.projection.is_empty() {
                                        if let Some(x) = field_chain(&b, p) {
                                            d2.push(format!("[\"w\",{},{}]", js(&x), s.source_info.span.get_lines().start_line));
                                        }
                                    }
                                    if let Rvalue::Ref(_, BorrowKind::Mut { .. }, p) = r {
                                        if let Some(x) = field_chain(&b, p) {
                                            d2.push(format!("[\"b\",{},{}]", js(&x), s.source_info.span.get_lines().start_line));
                                        }
                                    }
                                    if let Rvalue::AddressOf(RawPtrKind::Mut, p) = r {
                                        if let Some(x) = field_chain(&b, p) {
                                            d2.push(format!("[\"b\",{},{}]", js(&x), s.source_info.span.get_lines().start_line));
                                        }
                                    }
                                    if let Rvalue::Aggregate(AggregateKind::Adt(ad, v, _, _, _), _) = r {
                                        d2.push(format!("[\"a\",{},{}]", js(&format!("{}#{}", ad.name(), v.to_index())), s.source_info.span.get_lines().start_line));
                                    }
                                }
                            }
                            if let TerminatorKind::Call { destination, .. } = &bb.terminator.kind {
                                if let Some(x) = field_chain(&b, destination) {
                                    d2.push(format!("[\"w\",{},{}]", js(&x), bb.terminator.source_info.span.get_lines().start_line));
                                }
                            }
                        }
                        d2.join(",")
                    })
                    .unwrap_or_default();
                defs.push(format!(
                    "{{\"n\":{},\"file\":{},\"line\":{},\"in\":[{}],\"out\":{},\"body\":{},\"eff\":[{}]}}",
                    js(&n),
                    js(&sp.get_filename()),
                    sp.get_lines().start_line,
                    ins.join(","),
                    outt,
                    f.has_body(),
                    generic
                ));
            }
        }
    }
    d.drain();
    let statics: Vec<String> = d.statics.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let s = format!(
        "{{\"roots\":{{{}}},\"types\":[{}],\n\"fns\":{{{}}},\n\"defs\":[{}],\"statics\":{{{}}}}}\n",
        roots.join(","),
        d.ty_out.join(",\n"),
        d.fns.join(",\n"),
        defs.join(",\n"),
        statics.join(",")
    );
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

/// "Type.field" of every field projection of a place, outermost last: `Bvh.motion_values` ...
fn field_chain(b: &Body, p: &Place) -> Option<String> {
    let mut t = b.locals()[p.local].ty;
    let mut out: Vec<String> = vec![];
    let mut variant: usize = 0;
    for e in &p.projection {
        match e {
            ProjectionElem::Deref => {
                t = t.kind().builtin_deref(true)?.ty;
            }
            ProjectionElem::Downcast(v) => variant = v.to_index(),
            ProjectionElem::Field(f, ft) => {
                if let TyKind::RigidTy(RigidTy::Adt(def, _)) = t.kind() {
                    if def.kind() != AdtKind::Enum {
                        variant = 0;
                    }
                    let vs = def.variants();
                    let name = vs.get(variant).and_then(|v| v.fields().get(*f).map(|f| f.name.clone()));
                    out.push(format!("{}.{}", def.name(), name.unwrap_or_default()));
                }
                variant = 0;
                t = *ft;
            }
            ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => {
                out.push("[]".into());
                t = match t.kind() {
                    TyKind::RigidTy(RigidTy::Slice(e)) | TyKind::RigidTy(RigidTy::Array(e, _)) => e,
                    _ => return Some(out.join("/")),
                };
            }
            _ => return Some(out.join("/")),
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("/"))
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER passes the path of the real compiler as the first argument
    let real = if args.len() > 1 && args[1].ends_with("rustc") { Some(args.remove(1)) } else { None };
    let is_harness = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "bvh_roots");
    let is_crate = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == "bvh_anim");
    if is_crate && std::env::var("BVH_AUDIT").is_ok() {
        let r = rustc_public::run_with_tcx!(&args, |tcx| audit::audit(tcx));
        match r {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
            Err(_) => std::process::exit(1),
        }
        return;
    }
    if !is_harness {
        if let Some(r) = real {
            let st = std::process::Command::new(r).args(&args[1..]).status().expect("spawn rustc");
            std::process::exit(st.code().unwrap_or(101));
        }
    }
    let r = rustc_public::run!(&args, dump);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(1),
    }
}
