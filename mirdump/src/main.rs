//! rustc driver that writes the monomorphic MIR reachable from the analysis
//! entry points of one crate (named by $MIRDUMP_CRATE) as JSON to $MIRDUMP_OUT.
//! For every other crate it behaves exactly like rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_type_ir;

mod facts;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx {
    ty_ids: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    fn_ids: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    fn_out: Vec<String>,
    opaque: Vec<String>,
    /// std functions replaced by functions of the harness with the same generic parameters
    redirect: HashMap<String, FnDef>,
    /// locals of the body being written
    locals: Vec<LocalDecl>,
    /// (type, trait object type as text) of every unsizing
    unsized_to: Vec<(Ty, String)>,
    /// calls through a vtable: function number, method, generic arguments, trait object type as text
    virtuals: Vec<(usize, FnDef, GenericArgs, String)>,
}

/// the type behind a pointer
fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0.iter().find_map(|g| match g {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        }),
        _ => None,
    }
}

/// a trait object type without its lifetimes
fn dyn_name(t: Ty) -> Option<String> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Dynamic(..)) => {
            let s = format!("{}", t);
            Some(s.split(" + '").next().unwrap_or(&s).to_string())
        }
        _ => None,
    }
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_ids.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_body(t);
        self.ty_out[i] = s;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("[\"const\",{}]", n),
                    Err(_) => "[\"const\",null]".into(),
                }),
                _ => None,
            })
            .collect();
        arr(v)
    }
    fn ty_body(&mut self, t: Ty) -> String {
        let disp = esc(&format!("{}", t));
        let size = t
            .layout()
            .ok()
            .map(|l| l.shape().size.bytes().to_string())
            .unwrap_or("null".into());
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            other => {
                return format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", other)));
            }
        };
        let body = match &k {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
            RigidTy::Str => "\"k\":\"str\"".to_string(),
            RigidTy::Never => "\"k\":\"never\"".to_string(),
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            RigidTy::Array(e, n) => format!(
                "\"k\":\"array\",\"e\":{},\"n\":{}",
                self.ty(*e),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut),
            RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"f\":{}", arr(v))
            }
            RigidTy::Closure(d, a) => {
                // upvar tuple type is the last type argument
                let up = a.0.iter().rev().find_map(|g| match g {
                    GenericArgKind::Type(t) => Some(*t),
                    _ => None,
                });
                let mut v = vec![];
                if let Some(u) = up {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                        for t in ts {
                            v.push(self.ty(t).to_string());
                        }
                    }
                }
                format!("\"k\":\"closure\",\"name\":{},\"f\":{}", esc(&d.name()), arr(v))
            }
            RigidTy::FnDef(d, a) => {
                let f = match Instance::resolve(*d, a) {
                    Ok(i) => self.fun(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!("\"k\":\"fndef\",\"fn\":{},\"name\":{}", f, esc(&d.name()))
            }
            RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(*e)),
            RigidTy::Adt(d, a) => {
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let ga = self.gargs(a);
                let mut vs = vec![];
                for v in d.variants() {
                    let discr = if d.kind() == AdtKind::Enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(a);
                        fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                    }
                    vs.push(format!("[{},{},{}]", esc(&v.name()), discr, arr(fs)));
                }
                format!(
                    "\"k\":\"adt\",\"ak\":\"{}\",\"name\":{},\"box\":{},\"args\":{},\"v\":{}",
                    kind,
                    esc(&d.name()),
                    d.is_box(),
                    ga,
                    arr(vs)
                )
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{{},\"d\":{},\"size\":{}}}", body, disp, size)
    }

    fn fun(&mut self, i: Instance) -> usize {
        if let Some(n) = self.fn_ids.get(&i) {
            return *n;
        }
        let n = self.fn_out.len();
        self.fn_ids.insert(i, n);
        self.fn_out.push(String::new());
        self.queue.push_back((n, i));
        n
    }

    fn span(&self, s: rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        esc(&format!("{}:{}", s.get_filename(), l.start_line))
    }

    fn decode(&mut self, bytes: &[Option<u8>], prov: &[(usize, rustc_public::mir::alloc::AllocId)], base: usize, t: Ty, depth: usize) -> String {
        let unk = "[\"unk\"]".to_string();
        if depth > 12 {
            return unk;
        }
        let rd = |off: usize, n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for k in 0..n {
                v |= ((*bytes.get(off + k)?)? as u128) << (8 * k);
            }
            Some(v)
        };
        let k = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return unk,
        };
        match k {
            RigidTy::Bool => match rd(base, 1) {
                Some(v) => format!("[\"bool\",{}]", v != 0),
                None => unk,
            },
            RigidTy::Char => match rd(base, 4) {
                Some(v) => format!("[\"int\",{}]", v),
                None => unk,
            },
            RigidTy::Uint(u) => match rd(base, u.num_bytes()) {
                Some(v) => format!("[\"int\",{}]", v),
                None => unk,
            },
            RigidTy::Int(u) => match rd(base, u.num_bytes()) {
                Some(v) => {
                    let bits = u.num_bytes() * 8;
                    let sv = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                        (v as i128) - (1i128 << bits)
                    } else {
                        v as i128
                    };
                    format!("[\"int\",{}]", sv)
                }
                None => unk,
            },
            RigidTy::Pat(e, _) => self.decode(bytes, prov, base, e, depth + 1),
            RigidTy::FnDef(..) => format!("[\"zst\",{}]", self.ty(t)),
            RigidTy::Tuple(ts) => {
                let Ok(lay) = t.layout() else { return unk };
                let shape = lay.shape();
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "[\"tup\",[]]".into() };
                let v: Vec<String> = ts
                    .iter()
                    .zip(offsets)
                    .map(|(t, o)| self.decode(bytes, prov, base + o.bytes(), *t, depth + 1))
                    .collect();
                format!("[\"tup\",{}]", arr(v))
            }
            RigidTy::Array(e, n) => {
                let (Ok(n), Ok(l)) = (n.eval_target_usize(), e.layout()) else { return unk };
                if n > 64 {
                    return unk;
                }
                let sz = l.shape().size.bytes();
                let v: Vec<String> =
                    (0..n as usize).map(|i| self.decode(bytes, prov, base + i * sz, e, depth + 1)).collect();
                format!("[\"arr\",{}]", arr(v))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, id)) = prov.iter().find(|(o, _)| *o == base) else {
                    return match rd(base, 8) {
                        Some(v) => format!("[\"addr\",{}]", v),
                        None => unk,
                    };
                };
                let off = rd(base, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(*id) {
                    GlobalAlloc::Memory(a) => {
                        let p: Vec<_> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
                        match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = rd(base + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> =
                                    a.bytes.iter().skip(off).take(n).map(|b| b.unwrap_or(b'?')).collect();
                                format!("[\"str\",{}]", esc(&String::from_utf8_lossy(&b)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = rd(base + 8, 8).unwrap_or(0) as usize;
                                let Ok(l) = el.layout() else { return unk };
                                let sz = l.shape().size.bytes();
                                if n > 64 {
                                    return unk;
                                }
                                let v: Vec<String> = (0..n)
                                    .map(|i| self.decode(&a.bytes, &p, off + i * sz, el, depth + 1))
                                    .collect();
                                format!("[\"ref\",[\"arr\",{}]]", arr(v))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => unk,
                            _ => {
                                let v = self.decode(&a.bytes, &p, off, e, depth + 1);
                                format!("[\"ref\",{}]", v)
                            }
                        }
                    }
                    GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", self.fun(i)),
                    _ => unk,
                }
            }
            RigidTy::FnPtr(_) => {
                let Some((_, id)) = prov.iter().find(|(o, _)| *o == base) else { return unk };
                match GlobalAlloc::from(*id) {
                    GlobalAlloc::Function(i) => format!("[\"fnptr\",{}]", self.fun(i)),
                    _ => unk,
                }
            }
            RigidTy::Closure(..) => format!("[\"zst\",{}]", self.ty(t)),
            RigidTy::Adt(d, a) => {
                let Ok(lay) = t.layout() else { return unk };
                let shape = lay.shape();
                match d.kind() {
                    AdtKind::Struct => {
                        let vd = d.variants_iter().next().unwrap();
                        let offs: Vec<usize> = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![0; vd.fields().len()],
                        };
                        let v: Vec<String> = vd
                            .fields()
                            .iter()
                            .zip(offs)
                            .map(|(f, o)| self.decode(bytes, prov, base + o, f.ty_with_args(&a), depth + 1))
                            .collect();
                        format!("[\"adt\",{},0,{}]", self.ty(t), arr(v))
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                            VariantsShape::Empty => return unk,
                            VariantsShape::Single { index } => (
                                index.to_index(),
                                match &shape.fields {
                                    FieldsShape::Arbitrary { offsets } => {
                                        offsets.iter().map(|o| o.bytes()).collect()
                                    }
                                    _ => vec![],
                                },
                            ),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &shape.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                    _ => 0,
                                };
                                let tsize = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. }
                                    | rustc_public::abi::Scalar::Union { value } => {
                                        value.size(&rustc_public::target::MachineInfo::target()).bytes()
                                    }
                                };
                                let is_ptr = prov.iter().any(|(o, _)| *o == base + toff);
                                let raw = rd(base + toff, tsize);
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let Some(raw) = raw else { return unk };
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                        let mut r = None;
                                        for v in d.variants() {
                                            if d.discriminant_for_variant(v.idx()).val & mask == raw {
                                                r = Some(v.idx().to_index());
                                            }
                                        }
                                        match r {
                                            Some(r) => r,
                                            None => return unk,
                                        }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if is_ptr {
                                            untagged_variant.to_index()
                                        } else {
                                            let Some(raw) = raw else { return unk };
                                            let mask =
                                                if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                            let rel = raw.wrapping_sub(*niche_start) & mask;
                                            let s = niche_variants.start().to_index() as u128;
                                            let e = niche_variants.end().to_index() as u128;
                                            if rel <= e - s {
                                                (s + rel) as usize
                                            } else {
                                                untagged_variant.to_index()
                                            }
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let vd = d.variants_iter().nth(vi).unwrap();
                        let v: Vec<String> = vd
                            .fields()
                            .iter()
                            .zip(offs)
                            .map(|(f, o)| self.decode(bytes, prov, base + o, f.ty_with_args(&a), depth + 1))
                            .collect();
                        format!("[\"adt\",{},{},{}]", self.ty(t), vi, arr(v))
                    }
                    AdtKind::Union => unk,
                }
            }
            _ => unk,
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => format!("[\"zst\",{}]", self.ty(t)),
            ConstantKind::Allocated(a) => {
                let p: Vec<_> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
                self.decode(&a.bytes, &p, 0, t, 0)
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("[\"int\",{}]", n),
                Err(_) => "[\"unk\"]".into(),
            },
            _ => "[\"unk\"]".into(),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "\"d\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
                #[allow(unreachable_patterns)]
                _ => "[\"?\"]".to_string(),
            })
            .collect();
        format!("[{},{}]", p.local, arr(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let k = self.konst(&c.const_);
                format!("[\"k\",{},{}]", k, self.ty(c.const_.ty()))
            }
            Operand::RuntimeChecks(r) => format!("[\"rt\",\"{:?}\"]", r),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(p))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ops = arr(ops);
                match k {
                    AggregateKind::Array(t) => format!("[\"aggarr\",{},{}]", self.ty(*t), ops),
                    AggregateKind::Tuple => format!("[\"aggtup\",{}]", ops),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let f = f.map(|f| f.to_string()).unwrap_or("null".into());
                        format!("[\"aggadt\",{},{},{},{}]", self.ty(t), v.to_index(), ops, f)
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        let mut ids = vec![];
                        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                            if let Ok(i) = Instance::resolve_closure(*d, a, k) {
                                ids.push(self.fun(i).to_string());
                                break;
                            }
                        }
                        format!("[\"aggclo\",{},{},{}]", self.ty(t), ops, arr(ids))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"aggptr\",{},{}]", self.ty(*t), ops),
                    _ => "[\"unsup\",\"aggregate\"]".into(),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"chk\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                let mut extra = String::from("null");
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let (Ok(from), Some(to)) = (o.ty(&self.locals), pointee(*t).and_then(dyn_name)) {
                        if let Some(from) = pointee(from) {
                            if !self.unsized_to.iter().any(|(f, d)| *f == from && *d == to) {
                                self.unsized_to.push((from, to));
                            }
                        }
                    }
                }
                if let CastKind::PointerCoercion(pc) = k {
                    if let Operand::Constant(c) = o {
                        match (pc, c.const_.ty().kind()) {
                            (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                    extra = self.fun(i).to_string();
                                }
                            }
                            (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                    extra = self.fun(i).to_string();
                                }
                            }
                            _ => {}
                        }
                    }
                }
                format!("[\"cast\",\"{:?}\",{},{},{}]", k, self.operand(o), self.ty(*t), extra)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::ThreadLocalRef(_) => "[\"unsup\",\"tls\"]".into(),
        }
    }
    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate => "\"abort\"".into(),
            UnwindAction::Cleanup(b) => b.to_string(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        self.locals = b.locals().to_vec();
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, esc(&v.name)));
                }
            }
        }
        let mut blocks = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for s in &blk.statements {
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), self.span(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l),
                    StatementKind::StorageDead(l) => format!("[\"sx\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{}]", self.operand(o))
                    }
                    StatementKind::Intrinsic(_) => "[\"unsup\",\"copy_nonoverlapping\"]".into(),
                    _ => continue,
                };
                st.push(x);
            }
            let sp = self.span(blk.terminator.source_info.span);
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals());
                    let f = match t {
                        Ok(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            let tid = self.ty(t);
                            if i.is_empty_shim() {
                                format!("null,{}", tid)
                            } else {
                                format!("{},{}", self.fun(i), tid)
                            }
                        }
                        Err(_) => "\"err\",0".into(),
                    };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), f, target, Self::unwind(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                                Ok(i) => format!("[\"fn\",{}]", self.fun(i)),
                                Err(_) => format!("[\"unres\",{}]", esc(&d.name())),
                            },
                            _ => format!("[\"op\",{}]", self.operand(func)),
                        },
                        _ => format!("[\"op\",{}]", self.operand(func)),
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(av),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
                        m => format!("{:?}", m),
                    });
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        esc(&m),
                        target,
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"unsup\",\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(st), t, sp));
        }
        format!(
            "\"args\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }
    fn virtual_call(&mut self, n: usize, i: Instance, s: &mut String) {
        if !matches!(i.kind, InstanceKind::Virtual { .. }) {
            return;
        }
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = i.ty().kind() {
            if let Some(GenericArgKind::Type(t)) = a.0.first() {
                if let Some(name) = dyn_name(*t) {
                    self.virtuals.push((n, d, a.clone(), name));
                    s.push_str(",\"impls\":@");
                }
            }
        }
    }
    fn emit_fn(&mut self, n: usize, i: Instance) {
        let name = i.name();
        let def: CrateItem = match CrateItem::try_from(i) {
            Ok(d) => d,
            Err(_) => {
                let mut s = format!("{{\"name\":{},\"path\":{}", esc(&name), esc(&name));
                let _ = write!(s, ",\"kind\":\"{:?}\"", i.kind);
                if let Some(intr) = i.intrinsic_name() {
                    let _ = write!(s, ",\"intrinsic\":{}", esc(&intr));
                }
                let ga = self.gargs(&i.args());
                let _ = write!(s, ",\"gargs\":{}", ga);
                if let Ok(abi) = i.fn_abi() {
                    let t = self.ty(abi.ret.ty);
                    let _ = write!(s, ",\"ret\":{}", t);
                    let a: Vec<String> = abi.args.iter().map(|a| self.ty(a.ty).to_string()).collect();
                    let _ = write!(s, ",\"argtys\":{}", arr(a));
                }
                if matches!(i.kind, InstanceKind::Shim) {
                    if let Some(b) = i.body() {
                        let b = self.body(&b);
                        let _ = write!(s, ",{}", b);
                    }
                }
                self.virtual_call(n, i, &mut s);
                s.push('}');
                self.fn_out[n] = s;
                return;
            }
        };
        let path = def.name();
        let krate = def.krate().name;
        let mut s = format!("{{\"name\":{},\"path\":{},\"crate\":{}", esc(&name), esc(&path), esc(&krate));
        let _ = write!(s, ",\"kind\":\"{:?}\",\"span\":{}", i.kind, self.span(def.span()));
        if let Some(intr) = i.intrinsic_name() {
            let _ = write!(s, ",\"intrinsic\":{}", esc(&intr));
        }
        let ga = self.gargs(&i.args());
        let _ = write!(s, ",\"gargs\":{}", ga);
        if let Ok(abi) = i.fn_abi() {
            let t = self.ty(abi.ret.ty);
            let _ = write!(s, ",\"ret\":{}", t);
            let a: Vec<String> = abi.args.iter().map(|a| self.ty(a.ty).to_string()).collect();
            let _ = write!(s, ",\"argtys\":{}", arr(a));
        }
        let closure = i.args().0.iter().find_map(|a| match a {
            GenericArgKind::Type(t) => Some(matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..)))),
            _ => None,
        });
        let to = match closure {
            Some(true) => self.redirect.get(&format!("closure {path}")),
            _ => None,
        };
        if let Some(d) = to.or_else(|| self.redirect.get(&path)).copied() {
            if let Ok(r) = Instance::resolve(d, &i.args()) {
                let r = self.fun(r);
                let _ = write!(s, ",\"redirect\":{}}}", r);
                self.fn_out[n] = s;
                return;
            }
        }
        let is_opaque = self.opaque.iter().any(|p| {
            if let Some(p) = p.strip_prefix('=') {
                path == p
            } else {
                path.starts_with(p.as_str())
            }
        });
        if is_opaque {
            s.push_str(",\"opaque\":true");
        } else if !matches!(i.kind, InstanceKind::Virtual { .. }) {
            if let Some(b) = i.body() {
                let b = self.body(&b);
                let _ = write!(s, ",{}", b);
            }
        }
        self.virtual_call(n, i, &mut s);
        s.push('}');
        self.fn_out[n] = s;
    }
    /// finds the implementations a call through a vtable can reach; true if there are new functions to write
    fn link(&mut self, done: &mut HashSet<(usize, Ty)>, impls: &mut HashMap<usize, Vec<(Ty, usize)>>) -> bool {
        let before = self.queue.len();
        for (n, d, a, name) in self.virtuals.clone() {
            for (t, to) in self.unsized_to.clone() {
                if to == name && done.insert((n, t)) {
                    let mut a = a.clone();
                    a.0[0] = GenericArgKind::Type(t);
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let f = self.fun(i);
                        impls.entry(n).or_default().push((t, f));
                    }
                }
            }
        }
        self.queue.len() > before
    }
}

fn run_dump() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if krate.name != want {
        return ControlFlow::Continue(());
    }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let opaque = std::env::var("MIRDUMP_OPAQUE")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut cx = Cx {
        ty_ids: HashMap::new(),
        ty_out: vec![],
        fn_ids: HashMap::new(),
        queue: VecDeque::new(),
        fn_out: vec![],
        opaque,
        redirect: HashMap::new(),
        locals: vec![],
        unsized_to: vec![],
        virtuals: vec![],
    };
    // redirections: lines `std path => harness path`
    let table = std::env::var("MIRDUMP_REDIRECT")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default();
    for it in rustc_public::all_local_items() {
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
            for l in table.lines() {
                if let Some((from, to)) = l.split_once(" => ") {
                    // `std path => harness path if closure`: only where the first type argument is a closure
                    let (to, closure) = match to.split_once(" if closure") {
                        Some((to, _)) => (to, "closure "),
                        None => (to, ""),
                    };
                    if it.name().ends_with(&format!("::{}", to.trim())) {
                        cx.redirect.insert(format!("{closure}{}", from.trim()), d);
                    }
                }
            }
        }
    }
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(..))) {
            continue;
        }
        if it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let n = cx.fun(i);
            entries.push(format!("{}:{}", esc(&it.name()), n));
        }
    }
    let mut done = HashSet::new();
    let (mut linked, mut impls) = (HashSet::new(), HashMap::new());
    loop {
        while let Some((n, i)) = cx.queue.pop_front() {
            if done.insert(n) {
                cx.emit_fn(n, i);
            }
        }
        if !cx.link(&mut linked, &mut impls) {
            break;
        }
    }
    for (n, ..) in cx.virtuals.clone() {
        let v: Vec<String> = impls
            .remove(&n)
            .unwrap_or_default()
            .into_iter()
            .map(|(t, f): (Ty, usize)| format!("[{},{}]", cx.ty(t), f))
            .collect();
        cx.fn_out[n] = cx.fn_out[n].replace(",\"impls\":@", &format!(",\"impls\":{}", arr(v)));
    }
    let s = format!(
        "{{\"entries\":{{{}}},\n\"types\":[\n{}],\n\"fns\":[\n{}]}}\n",
        entries.join(","),
        cx.ty_out.join(",\n"),
        cx.fn_out.join(",\n")
    );
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn run_facts(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    facts::run(tcx)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // Used as RUSTC_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let is_target = {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want)
    };
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = if std::env::var("MIRDUMP_FACTS").is_ok() {
        rustc_public::run_with_tcx!(&args, run_facts)
    } else {
        rustc_public::run!(&args, run_dump)
    };
    match r {
        Ok(_) => {}
        Err(_) => std::process::exit(1),
    }
}
