//! mirx: a rustc driver that dumps the monomorphic MIR reachable from a set of root functions
//! as JSON.  It is used as RUSTC_WORKSPACE_WRAPPER; for other crates than the target it is a
//! plain rustc.
//!
//!   MIRX_CRATE   crate name to dump           MIRX_OUT   output file
//!   MIRX_ROOTS   file with one regex-free root pattern per line (substring or ^prefix / =exact)
//!   MIRX_STOP    file with path prefixes whose bodies are not dumped
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;

use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn n<T: ToString>(x: T) -> J {
    J::N(x.to_string())
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => o.push_str(x),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_list: Vec<J>,
    queue: VecDeque<Instance>,
    seen: HashMap<String, Instance>,
    stop: Vec<String>,
    unresolved: Vec<String>,
}

fn starts(p: &str, pat: &str) -> bool {
    if let Some(x) = pat.strip_prefix('*') {
        p.contains(x)
    } else {
        p.starts_with(pat)
    }
}

impl Cx {
    fn ty(&mut self, t: Ty) -> J {
        n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let id = self.ty_list.len();
        self.tys.insert(t, id);
        self.ty_list.push(J::Null);
        let j = self.ty_desc(t);
        self.ty_list[id] = j;
        id
    }
    fn targs(&mut self, a: &GenericArgs) -> J {
        J::A(
            a.0.iter()
                .filter_map(|g| match g {
                    GenericArgKind::Type(t) => Some(self.ty(*t)),
                    GenericArgKind::Const(c) => Some(s(format!("{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or_default()))),
                    _ => None,
                })
                .collect(),
        )
    }
    fn ty_desc(&mut self, t: Ty) -> J {
        let size = t.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
        let disp = format!("{}", t);
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(i.num_bytes() * 8)));
                    o.push(("signed", J::B(true)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", s("int")));
                    o.push(("bits", n(i.num_bytes() * 8)));
                    o.push(("signed", J::B(false)));
                }
                RigidTy::Float(f) => {
                    o.push(("k", s("float")));
                    o.push(("bits", n(size * 8)));
                }
                RigidTy::Adt(def, args) => {
                    o.push(("k", s(if def.kind() == AdtKind::Enum { "enum" } else if def.kind() == AdtKind::Union { "union" } else { "struct" })));
                    o.push(("name", s(def.name())));
                    o.push(("args", self.targs(&args)));
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let fs = v.fields();
                        let d = if def.kind() == AdtKind::Enum {
                            n(def.discriminant_for_variant(v.idx()).val as i128)
                        } else {
                            n(0)
                        };
                        let fj = fs
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                J::A(vec![s(&f.name), self.ty(ft)])
                            })
                            .collect();
                        vs.push(J::O(vec![("name", s(v.name())), ("discr", d), ("fields", J::A(fj))]));
                    }
                    o.push(("variants", J::A(vs)));
                    if def.kind() == AdtKind::Struct {
                        if let Ok(l) = t.layout() {
                            if let FieldsShape::Arbitrary { offsets } = l.shape().fields {
                                o.push(("offsets", J::A(offsets.iter().map(|x| n(x.bytes())).collect())));
                            }
                        }
                    }
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, len) => {
                    o.push(("k", s("array")));
                    let e = self.ty(e);
                    o.push(("elem", e));
                    o.push(("len", n(len.eval_target_usize().unwrap_or(0))));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    let e = self.ty(e);
                    o.push(("elem", e));
                }
                RigidTy::RawPtr(e, m) => {
                    o.push(("k", s("ptr")));
                    let e = self.ty(e);
                    o.push(("to", e));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    let e = self.ty(e);
                    o.push(("to", e));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::FnDef(d, a) => {
                    o.push(("k", s("fndef")));
                    o.push(("name", s(d.name())));
                    if let Ok(i) = Instance::resolve(d, &a) {
                        let k = self.inst(i);
                        o.push(("inst", k));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(d, a) => {
                    o.push(("k", s("closure")));
                    o.push(("name", s(d.name())));
                    let up = closure_upvars(&a);
                    let v = up.iter().map(|t| self.ty(*t)).collect();
                    o.push(("upvars", J::A(v)));
                    for (nm, ck) in [("once", ClosureKind::FnOnce), ("mutc", ClosureKind::FnMut), ("fnc", ClosureKind::Fn)] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ck) {
                            let k = self.inst(i);
                            o.push((nm, k));
                        }
                    }
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Tuple(v) => {
                    o.push(("k", s("tuple")));
                    let v = v.iter().map(|t| self.ty(*t)).collect();
                    o.push(("elems", J::A(v)));
                }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("param"))),
        }
        o.push(("size", n(size)));
        o.push(("disp", s(disp)));
        J::O(o)
    }

    /// register an instance, returns its key
    fn inst(&mut self, i: Instance) -> J {
        let key = i.mangled_name().to_string();
        if !self.seen.contains_key(&key) {
            self.seen.insert(key.clone(), i);
            self.queue.push_back(i);
        }
        s(key)
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![n(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    J::A(vec![s("f"), n(*i), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(*offset), n(*min_length), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(*from), n(*to), J::B(*from_end)]),
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), n(v.to_index())]),
                ProjectionElem::OpaqueCast(t) => s("oc"),
            });
        }
        J::A(v)
    }

    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(x) => n(x),
                Err(_) => J::O(vec![("unk", s("tyconst"))]),
            },
            ConstantKind::Unevaluated(_) => J::O(vec![("unk", s("unevaluated"))]),
            ConstantKind::Param(_) => J::O(vec![("unk", s("param"))]),
        };
        J::O(vec![("c", tj), ("v", v)])
    }

    fn rd(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let mut r: u128 = 0;
        if off + len > a.bytes.len() || len > 16 {
            return None;
        }
        for i in (0..len).rev() {
            r = (r << 8) | (a.bytes[off + i]? as u128);
        }
        Some(r)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        let unk = |x: &str| J::O(vec![("unk", s(x))]);
        if depth > 12 {
            return unk("depth");
        }
        let Ok(layout) = t.layout() else { return unk("layout") };
        let shape = layout.shape();
        let size = shape.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) => {
                    match self.rd(a, off, size) {
                        Some(x) => n(x),
                        None => unk("uninit"),
                    }
                }
                RigidTy::Int(_) => match self.rd(a, off, size) {
                    Some(x) => {
                        let sh = 128 - size as u32 * 8;
                        n(((x << sh) as i128) >> sh)
                    }
                    None => unk("uninit"),
                },
                RigidTy::Tuple(ts) => match shape.fields {
                    FieldsShape::Arbitrary { offsets } => {
                        let v = ts.iter().zip(offsets).map(|(t, o)| self.decode(a, off + o.bytes(), *t, depth + 1)).collect();
                        J::O(vec![("fs", J::A(v))])
                    }
                    _ => J::O(vec![("fs", J::A(vec![]))]),
                },
                RigidTy::Array(e, len) => {
                    let len = len.eval_target_usize().unwrap_or(0);
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v = (0..len).map(|i| self.decode(a, off + i as usize * es, e, depth + 1)).collect();
                    J::O(vec![("arr", J::A(v))])
                }
                RigidTy::Adt(def, args) => match def.kind() {
                    AdtKind::Struct => {
                        let fs: Vec<Ty> = def.variants_iter().next().unwrap().fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        match shape.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                let v = fs.iter().zip(offsets).map(|(t, o)| self.decode(a, off + o.bytes(), *t, depth + 1)).collect();
                                J::O(vec![("fs", J::A(v))])
                            }
                            _ if fs.is_empty() => J::O(vec![("fs", J::A(vec![]))]),
                            _ => unk("structshape"),
                        }
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                            VariantsShape::Single { index } => (
                                index.to_index(),
                                match &shape.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                                    _ => vec![],
                                },
                            ),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &shape.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                    _ => 0,
                                };
                                let prim = match tag {
                                    Scalar::Initialized { value, .. } => *value,
                                    Scalar::Union { value } => *value,
                                };
                                let tl = match prim {
                                    Primitive::Int { length, .. } => length.bits() / 8,
                                    _ => 8,
                                };
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let tv = self.rd(a, off + toff, tl);
                                let Some(tv) = tv else { return unk("tag") };
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let m = if tl == 16 { u128::MAX } else { (1u128 << (tl * 8)) - 1 };
                                        match def.variants_iter().find(|v| def.discriminant_for_variant(v.idx()).val & m == tv) {
                                            Some(v) => v.idx().to_index(),
                                            None => return unk("discr"),
                                        }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let m = if tl == 16 { u128::MAX } else { (1u128 << (tl * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        let lo = niche_variants.start().to_index();
                                        let hi = niche_variants.end().to_index();
                                        if !has_prov && rel <= (hi - lo) as u128 {
                                            lo + rel as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                            }
                            _ => return unk("enumempty"),
                        };
                        let v = def.variants_iter().nth(vi).unwrap();
                        let fs: Vec<Ty> = v.fields().iter().map(|f| f.ty_with_args(&args)).collect();
                        let fv = fs.iter().zip(offs).map(|(t, o)| self.decode(a, off + o, *t, depth + 1)).collect();
                        J::O(vec![("var", n(vi)), ("fs", J::A(fv))])
                    }
                    _ => unk("union"),
                },
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                        return match self.rd(a, off, 8) { Some(x) => J::O(vec![("addr", n(x))]), None => unk("ptr") };
                    };
                    let base = self.rd(a, off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(prov.0) {
                        GlobalAlloc::Memory(m) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let l = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = (0..l).map(|i| m.bytes.get(base + i).copied().flatten().unwrap_or(0)).collect();
                                J::O(vec![("str", s(String::from_utf8_lossy(&b)))])
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let l = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v = (0..l).map(|i| self.decode(&m, base + i * es, el, depth + 1)).collect();
                                J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => unk("dyn"),
                            _ => {
                                let v = self.decode(&m, base, e, depth + 1);
                                J::O(vec![("ref", v)])
                            }
                        },
                        GlobalAlloc::Function(i) => {
                            let k = self.inst(i);
                            J::O(vec![("fn", k)])
                        }
                        GlobalAlloc::Static(d) => match d.eval_initializer() {
                            Ok(m) => {
                                let v = self.decode(&m, base, e, depth + 1);
                                J::O(vec![("ref", v), ("static", s(d.name()))])
                            }
                            Err(_) => unk("static"),
                        },
                        _ => unk("vtable"),
                    }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => J::O(vec![("zst", J::B(true))]),
                _ => unk("ty"),
            },
            _ => unk("kind"),
        }
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place(p),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => J::O(vec![("rtc", s(format!("{:?}", r)))]),
        }
    }
    fn ops(&mut self, v: &[Operand]) -> J {
        J::A(v.iter().map(|o| self.operand(o)).collect())
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), self.place(p), s(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shr" })]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(p), s("mut")]),
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), self.place(p)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(x), self.operand(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), s(format!("{:?}", b)), self.operand(x), self.operand(y)]),
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(x)]),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, self.ty(*t)])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                J::A(vec![s("repeat"), o, n(c.eval_target_usize().unwrap_or(0))])
            }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::Aggregate(k, v) => {
                let ops = self.ops(v);
                let kj = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*d, args.clone()));
                        J::A(vec![s("adt"), self.ty(t), n(vi.to_index()), match uf { Some(f) => n(*f), None => J::Null }])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*d, args.clone()));
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), self.ty(*t)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, ops])
            }
        }
    }

    fn dump(&mut self, i: Instance, body: &Body) -> J {
        let locals: Vec<J> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(&v.name), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r);
                        st.push(J::A(vec![pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![pj, J::A(vec![s("setdiscr"), n(variant_index.to_index())])]));
                    }
                    StatementKind::Intrinsic(_) => {}
                    _ => {}
                }
            }
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br = targets.branches().map(|(v, b)| J::A(vec![n(v), n(b)])).collect();
                    J::A(vec![s("switch"), d, J::A(br), n(targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Resume | TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), n(*target)]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), c, J::B(*expected), n(*target), s(m)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                let ta = self.targs(&a);
                                match Instance::resolve(d, &a) {
                                    Ok(inst) => {
                                        let kind = format!("{:?}", inst.kind);
                                        let key = self.inst(inst);
                                        J::O(vec![("fn", key), ("def", s(d.name())), ("kind", s(kind)), ("targs", ta)])
                                    }
                                    Err(_) => J::O(vec![("def", s(d.name())), ("kind", s("unresolved")), ("targs", ta)]),
                                }
                            }
                            _ => J::O(vec![("ptr", self.operand(func))]),
                        },
                        o => J::O(vec![("ptr", self.operand(o))]),
                    };
                    let a = self.ops(args);
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, a, d, match target { Some(t) => n(*t), None => J::Null }])
                }
            };
            let line = b.terminator.source_info.span.get_lines().start_line;
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("l", n(line))]));
        }
        J::O(vec![
            ("args", n(body.arg_locals().len())),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn closure_upvars(a: &GenericArgs) -> Vec<Ty> {
    // closure args: parent args.., kind, sig, tupled upvars
    if let Some(GenericArgKind::Type(t)) = a.0.last() {
        if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
            return v;
        }
    }
    vec![]
}

fn lines(var: &str) -> Vec<String> {
    std::env::var(var)
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
        .unwrap_or_default()
}

fn analyze() -> ControlFlow<()> {
    let roots = lines("MIRX_ROOTS");
    let mut cx = Cx { tys: HashMap::new(), ty_list: vec![], queue: VecDeque::new(), seen: HashMap::new(), stop: lines("MIRX_STOP"), unresolved: vec![] };
    let mut all = vec![];
    let mut seen_names: HashSet<String> = HashSet::new();
    for item in rustc_public::all_local_items() {
        let name = item.name().to_string();
        let is_fn = matches!(item.kind(), ItemKind::Fn);
        if !is_fn {
            continue;
        }
        let hit = roots.iter().any(|r| if let Some(x) = r.strip_prefix('=') { name == x } else if let Some(x) = r.strip_prefix('^') { name.starts_with(x) } else { name.contains(r.as_str()) });
        let mono = !item.requires_monomorphization();
        all.push(J::A(vec![s(&name), J::B(mono), J::B(hit), n(item.span().get_lines().start_line), s(item.span().get_filename())]));
        if hit && mono {
            if let Ok(i) = Instance::try_from(item) {
                cx.inst(i);
            }
        }
    }
    let mut out = String::new();
    out.push_str("{\"bodies\":{");
    let mut first = true;
    while let Some(i) = cx.queue.pop_front() {
        let key = i.mangled_name().to_string();
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let stop = cx.stop.iter().any(|p| starts(&def, p) || starts(&name, p));
        let kind = format!("{:?}", i.kind);
        let ity = i.ty();
        let mut o = vec![("name", s(&name)), ("def", s(&def)), ("kind", s(&kind))];
        {
            let sp = i.def.span();
            o.push(("line", n(sp.get_lines().start_line)));
            o.push(("file", s(sp.get_filename())));
        }
        let abi = i.fn_abi();
        if let Ok(abi) = abi {
            let a = abi.args.iter().map(|x| cx.ty(x.ty)).collect();
            o.push(("abi_args", J::A(a)));
            let r = cx.ty(abi.ret.ty);
            o.push(("abi_ret", r));
        }
        let ga = cx.targs(&i.args());
        o.push(("targs", ga));
        if !stop && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic) {
            if let Some(b) = i.body() {
                let j = cx.dump(i, &b);
                o.push(("body", j));
            }
        }
        if !first {
            out.push_str(",\n");
        }
        first = false;
        J::S(key).write(&mut out);
        out.push(':');
        J::O(o).write(&mut out);
    }
    out.push_str("},\n\"types\":");
    let tl = std::mem::take(&mut cx.ty_list);
    J::A(tl).write(&mut out);
    out.push_str(",\n\"items\":");
    J::A(all).write(&mut out);
    out.push('}');
    std::fs::write(std::env::var("MIRX_OUT").unwrap(), out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc-wrap") || args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = std::env::var("MIRX_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate) && !args.iter().any(|a| a == "--test");
    if is_target {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
        let r = run!(&args, analyze);
        if let Err(e) = r {
            eprintln!("mirx: {:?}", e);
            std::process::exit(1);
        }
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
