//! MIR fact extractor for svdtools.
//!
//! Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; for the crates named in
//! MIRFACTS_CRATES it writes, besides the normal compilation, a JSON description of every
//! monomorphised function body reachable from the crate (callees resolved, constants
//! evaluated, place projections named) to $MIRFACTS_OUT/<crate>-<kind>.json.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
#[allow(unused_imports)]
use std::ops::ControlFlow;

#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(t) => ws(t, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    ws(n, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn ws(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Ctx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    type_j: Vec<J>,
    adts: BTreeMap<String, J>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    out: Vec<(String, J)>,
    iter_next: Option<FnDef>,
    local: HashSet<String>,
}

fn adt_name(d: &AdtDef) -> String {
    d.name().to_string()
}

impl<'tcx> Ctx<'tcx> {
    fn krate_local(&self, name: &str) -> bool {
        self.local.contains(name)
    }

    fn reg_adt(&mut self, d: &AdtDef) {
        let n = adt_name(d);
        if self.adts.contains_key(&n) {
            return;
        }
        let mut vs = vec![];
        for v in d.variants() {
            let fs = v.fields().iter().map(|f| s(f.name.to_string())).collect();
            let dis = if d.kind().is_enum() {
                J::I(d.discriminant_for_variant(v.idx()).val as i128)
            } else {
                J::I(0)
            };
            vs.push(J::O(vec![("n", s(v.name().to_string())), ("d", dis), ("f", J::A(fs))]));
        }
        let k = match d.kind() {
            AdtKind::Enum => "enum",
            AdtKind::Struct => "struct",
            AdtKind::Union => "union",
        };
        self.adts.insert(n, J::O(vec![("k", s(k)), ("v", J::A(vs))]));
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(k) = self.types.get(&t) {
            return *k;
        }
        let id = self.type_j.len();
        self.types.insert(t, id);
        self.type_j.push(J::Null);
        let j = self.ty_j(t);
        self.type_j[id] = j;
        id
    }

    fn gargs(&mut self, a: &GenericArgs) -> J {
        let v = a.0.iter().filter_map(|g| g.ty().copied()).collect::<Vec<_>>();
        J::A(v.into_iter().map(|t| i(self.ty(t))).collect())
    }

    fn ty_j(&mut self, t: Ty) -> J {
        let text = s(format!("{t}"));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Adt(d, a) => {
                    self.reg_adt(&d);
                    let mut o = vec![("k", s("adt")), ("n", s(adt_name(&d))), ("a", self.gargs(&a)), ("t", text)];
                    if self.krate_local(&d.krate().name.to_string()) {
                        if let Some(nx) = self.iter_next {
                            let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
                            if let Ok(inst) = Instance::resolve(nx, &ga) {
                                if inst.kind == InstanceKind::Item {
                                    let m = inst.mangled_name().to_string();
                                    self.enq(inst);
                                    o.push(("next", s(m)));
                                }
                            }
                        }
                    }
                    J::O(o)
                }
                RigidTy::Ref(_, u, m) => J::O(vec![
                    ("k", s("ref")),
                    ("m", J::B(m == Mutability::Mut)),
                    ("a", J::A(vec![i(self.ty(u))])),
                    ("t", text),
                ]),
                RigidTy::RawPtr(u, _) => J::O(vec![("k", s("ptr")), ("a", J::A(vec![i(self.ty(u))])), ("t", text)]),
                RigidTy::Array(u, _) => J::O(vec![("k", s("array")), ("a", J::A(vec![i(self.ty(u))])), ("t", text)]),
                RigidTy::Slice(u) => J::O(vec![("k", s("slice")), ("a", J::A(vec![i(self.ty(u))])), ("t", text)]),
                RigidTy::Tuple(v) => {
                    let a = v.iter().map(|x| i(self.ty(*x))).collect();
                    J::O(vec![("k", s("tuple")), ("a", J::A(a)), ("t", text)])
                }
                RigidTy::Closure(d, a) => {
                    let m = self.closure(&d, &a);
                    J::O(vec![("k", s("closure")), ("inst", s(m)), ("t", text)])
                }
                RigidTy::FnDef(d, a) => {
                    let c = self.callee(d, &a, true);
                    J::O(vec![("k", s("fndef")), ("c", c), ("t", text)])
                }
                RigidTy::Str => J::O(vec![("k", s("str")), ("t", text)]),
                RigidTy::Bool => J::O(vec![("k", s("bool")), ("t", text)]),
                RigidTy::Char => J::O(vec![("k", s("char")), ("t", text)]),
                RigidTy::Int(_) => J::O(vec![("k", s("int")), ("t", text)]),
                RigidTy::Uint(_) => J::O(vec![("k", s("uint")), ("t", text)]),
                RigidTy::Dynamic(..) => J::O(vec![("k", s("dyn")), ("t", text)]),
                _ => J::O(vec![("k", s("other")), ("t", text)]),
            },
            _ => J::O(vec![("k", s("other")), ("t", text)]),
        }
    }

    fn closure(&mut self, d: &ClosureDef, a: &GenericArgs) -> String {
        let n = a.0.len();
        let kind = match a.0[n - 3].ty().map(|t| t.kind()) {
            Some(TyKind::RigidTy(RigidTy::Int(IntTy::I8))) => ClosureKind::Fn,
            Some(TyKind::RigidTy(RigidTy::Int(IntTy::I16))) => ClosureKind::FnMut,
            _ => ClosureKind::FnOnce,
        };
        match Instance::resolve_closure(*d, a, kind) {
            Ok(inst) => {
                let m = inst.mangled_name().to_string();
                self.enq(inst);
                m
            }
            Err(_) => String::new(),
        }
    }

    fn inst_krate(&self, inst: &Instance) -> String {
        let d = rustc_public::CrateItem::try_from(*inst);
        match d {
            Ok(d) => d.krate().name.to_string(),
            Err(_) => String::new(),
        }
    }

    fn enq(&mut self, inst: Instance) {
        let m = inst.mangled_name().to_string();
        if self.seen.insert(m) {
            self.queue.push_back(inst);
        }
    }

    fn callee(&mut self, d: FnDef, a: &GenericArgs, as_value: bool) -> J {
        let mut o = vec![("n", s(d.name().to_string())), ("a", self.gargs(a))];
        let r = if as_value { Instance::resolve_for_fn_ptr(d, a).or_else(|_| Instance::resolve(d, a)) } else { Instance::resolve(d, a) };
        if let Ok(inst) = r {
            match inst.kind {
                InstanceKind::Item => {
                    let int = rustc_public::rustc_internal::internal(self.tcx, inst);
                    let did = int.def_id();
                    let path = self.tcx.def_path_str(did);
                    let kr = self.tcx.crate_name(did.krate).to_string();
                    let is_clo = self.tcx.is_closure_like(did);
                    if is_clo {
                        o.push(("clo", J::B(true)));
                    }
                    if self.local.contains(&kr) && inst.has_body() {
                        let m = inst.mangled_name().to_string();
                        self.enq(inst);
                        o.push(("inst", s(m)));
                    }
                    else if FORWARD.contains(&path.as_str()) {
                        if let Some(m) = self.forwarded(&inst) {
                            o.push(("inst", s(m)));
                        }
                    }
                    o.push(("res", s(path)));
                    o.push(("kr", s(kr)));
                }
                InstanceKind::Intrinsic => o.push(("intr", J::B(true))),
                InstanceKind::Virtual { .. } => o.push(("virt", J::B(true))),
                _ => {
                    o.push(("shim", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    /// A library function that only calls a trait's function with its own arguments: the implementation, if it is analysed code.
    fn forwarded(&mut self, inst: &Instance) -> Option<String> {
        let b = inst.body()?;
        let locals = b.locals().to_vec();
        for bl in &b.blocks {
            if let TerminatorKind::Call { func, .. } = &bl.terminator.kind {
                if let Ok(t) = func.ty(&locals) {
                    if let TyKind::RigidTy(RigidTy::FnDef(fd, ga)) = t.kind() {
                        let r = Instance::resolve(fd, &ga).ok()?;
                        if !matches!(r.kind, InstanceKind::Item) {
                            return None;
                        }
                        let did = rustc_public::rustc_internal::internal(self.tcx, r).def_id();
                        let kr = self.tcx.crate_name(did.krate).to_string();
                        if self.local.contains(&kr) && r.has_body() {
                            let m = r.mangled_name().to_string();
                            self.enq(r);
                            return Some(m);
                        }
                        return None;
                    }
                }
                return None;
            }
        }
        None
    }

    // ---- constants -------------------------------------------------
    fn alloc_of(&self, id: rustc_public::mir::alloc::AllocId) -> Option<(Allocation, bool)> {
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => Some((a, false)),
            GlobalAlloc::Static(st) => st.eval_initializer().ok().map(|a| (a, true)),
            _ => None,
        }
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        if depth > 8 {
            return J::O(vec![("c", s("deep"))]);
        }
        let rd = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        let ptr = |o: usize| a.provenance.ptrs.iter().find(|p| p.0 == o).map(|p| p.1 .0);
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match rd(off, 1) {
                    Some(v) => J::O(vec![("c", s("bool")), ("v", J::B(v != 0))]),
                    None => J::O(vec![("c", s("unk"))]),
                },
                RigidTy::Char => match rd(off, 4) {
                    Some(v) => J::O(vec![("c", s("char")), ("v", J::I(v as i128))]),
                    None => J::O(vec![("c", s("unk"))]),
                },
                RigidTy::Int(k) => {
                    let n = k.num_bytes();
                    match rd(off, n) {
                        Some(v) => {
                            let sh = 128 - 8 * n as u32;
                            let v = ((v << sh) as i128) >> sh;
                            J::O(vec![("c", s("int")), ("v", J::I(v)), ("ty", s(format!("{t}")))])
                        }
                        None => J::O(vec![("c", s("unk"))]),
                    }
                }
                RigidTy::Uint(k) => {
                    let n = k.num_bytes();
                    match rd(off, n) {
                        Some(v) => J::O(vec![("c", s("int")), ("v", J::I(v as i128)), ("ty", s(format!("{t}")))]),
                        None => J::O(vec![("c", s("unk"))]),
                    }
                }
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let Some(id) = ptr(off) else {
                        return J::O(vec![("c", s("unk"))]);
                    };
                    let Some((al, _)) = self.alloc_of(id) else {
                        return J::O(vec![("c", s("unk"))]);
                    };
                    let base = rd(off, 8).unwrap_or(0) as usize;
                    match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = rd(off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> = al.bytes[base..base + n].iter().map(|b| b.unwrap_or(0)).collect();
                            J::O(vec![("c", s("str")), ("v", s(String::from_utf8_lossy(&bytes).to_string()))])
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = rd(off + 8, 8).unwrap_or(0) as usize;
                            self.decode_seq(el, &al, base, n, depth)
                        }
                        _ => {
                            let v = self.decode(inner, &al, base, depth + 1);
                            J::O(vec![("c", s("ref")), ("v", v)])
                        }
                    }
                }
                RigidTy::Array(el, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    self.decode_seq(el, a, off, n, depth)
                }
                RigidTy::Tuple(v) => {
                    let Ok(l) = t.layout() else { return J::O(vec![("c", s("unk"))]) };
                    let offs = match l.shape().fields {
                        FieldsShape::Arbitrary { offsets } => offsets,
                        _ => vec![],
                    };
                    let mut fs = vec![];
                    for (k, ft) in v.iter().enumerate() {
                        let o = offs.get(k).map(|x| x.bytes()).unwrap_or(0);
                        fs.push(self.decode(*ft, a, off + o, depth + 1));
                    }
                    J::O(vec![("c", s("tuple")), ("v", J::A(fs))])
                }
                RigidTy::Adt(d, ga) => {
                    self.reg_adt(&d);
                    let Ok(l) = t.layout() else { return J::O(vec![("c", s("unk"))]) };
                    let sh = l.shape();
                    let (vidx, offs): (VariantIdx, Vec<usize>) = match &sh.variants {
                        VariantsShape::Single { index } => (
                            *index,
                            match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                                _ => vec![],
                            },
                        ),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let tofs = match &sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                                _ => 0,
                            };
                            let tsz = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                                rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                            };
                            let isptr = ptr(off + tofs).is_some();
                            let tv = rd(off + tofs, tsz);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(tv) = tv else { return J::O(vec![("c", s("unk"))]) };
                                    d.variants().iter().find(|v| {
                                        let dv = d.discriminant_for_variant(v.idx()).val;
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        dv & m == tv
                                    }).map(|v| v.idx().to_index())
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if isptr {
                                        Some(untagged_variant.to_index())
                                    } else {
                                        let Some(tv) = tv else { return J::O(vec![("c", s("unk"))]) };
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        let lo = niche_variants.start().to_index();
                                        let hi = niche_variants.end().to_index();
                                        if rel <= (hi - lo) as u128 {
                                            Some(lo + rel as usize)
                                        } else {
                                            Some(untagged_variant.to_index())
                                        }
                                    }
                                }
                            };
                            let Some(vi) = vi else { return J::O(vec![("c", s("unk"))]) };
                            let v = d.variants()[vi].idx();
                            let o = variants[vi].offsets.iter().map(|x| x.bytes()).collect();
                            (v, o)
                        }
                        VariantsShape::Empty => return J::O(vec![("c", s("unk"))]),
                    };
                    let Some(v) = d.variant(vidx) else { return J::O(vec![("c", s("unk"))]) };
                    let mut fs = vec![];
                    if !d.kind().is_enum() && matches!(d.kind(), AdtKind::Union) {
                        return J::O(vec![("c", s("unk"))]);
                    }
                    for (k, f) in v.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&ga);
                        let o = offs.get(k).copied().unwrap_or(0);
                        fs.push(self.decode(ft, a, off + o, depth + 1));
                    }
                    J::O(vec![("c", s("adt")), ("n", s(adt_name(&d))), ("vi", i(vidx.to_index())), ("v", J::A(fs))])
                }
                RigidTy::FnDef(d, ga) => {
                    let c = self.callee(d, &ga, true);
                    J::O(vec![("c", s("fn")), ("v", c)])
                }
                RigidTy::FnPtr(_) => {
                    if let Some(id) = ptr(off) {
                        if let GlobalAlloc::Function(inst) = GlobalAlloc::from(id) {
                            let m = inst.mangled_name().to_string();
                            let n = inst.name().to_string();
                            let kr = self.inst_krate(&inst);
                            let mut o = vec![("n", s(n))];
                            if self.local.contains(&kr) && inst.has_body() {
                                self.enq(inst);
                                o.push(("inst", s(m)));
                            }
                            return J::O(vec![("c", s("fn")), ("v", J::O(o))]);
                        }
                    }
                    J::O(vec![("c", s("unk"))])
                }
                _ => J::O(vec![("c", s("unk"))]),
            },
            _ => J::O(vec![("c", s("unk"))]),
        }
    }

    fn decode_seq(&mut self, el: Ty, al: &Allocation, base: usize, n: usize, depth: usize) -> J {
        if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = el.kind() {
            let bytes = al.bytes[base..base + n].iter().map(|b| J::I(b.unwrap_or(0) as i128)).collect();
            return J::O(vec![("c", s("bytes")), ("v", J::A(bytes))]);
        }
        let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        let mut v = vec![];
        for k in 0..n.min(4096) {
            v.push(self.decode(el, al, base + k * sz, depth + 1));
        }
        J::O(vec![("c", s("seq")), ("v", J::A(v))])
    }

    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    let c = self.callee(d, &a, true);
                    J::O(vec![("c", s("fn")), ("v", c)])
                }
                TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                    let m = self.closure(&d, &a);
                    J::O(vec![("c", s("closure")), ("v", s(m))])
                }
                TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                    self.reg_adt(&d);
                    J::O(vec![("c", s("adt")), ("n", s(adt_name(&d))), ("vi", i(0)), ("v", J::A(vec![]))])
                }
                _ => J::O(vec![("c", s("zst"))]),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    let (t, a) = (*t, a.clone());
                    self.decode(t, &a, 0, 0)
                }
                _ => J::O(vec![("c", s("unk"))]),
            },
            _ => J::O(vec![("c", s("unk"))]),
        };
        J::A(vec![s("k"), v, i(tid)])
    }

    // ---- bodies ----------------------------------------------------
    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> J {
        let mut t = locals[p.local].ty;
        let mut var: Option<VariantIdx> = None;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    proj.push(J::A(vec![s("*")]));
                    t = match t.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, u, _)) | TyKind::RigidTy(RigidTy::RawPtr(u, _)) => u,
                        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| g.ty().copied()).unwrap_or(t),
                        _ => t,
                    };
                    var = None;
                }
                ProjectionElem::Field(idx, ft) => {
                    let (adt, name) = match t.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                            self.reg_adt(&d);
                            let v = match var {
                                Some(v) => d.variant(v),
                                None => d.variants().into_iter().next(),
                            };
                            let nm = v.and_then(|v| v.fields().get(*idx).map(|f| f.name.to_string())).unwrap_or_else(|| format!("{idx}"));
                            (adt_name(&d), nm)
                        }
                        TyKind::RigidTy(RigidTy::Closure(..)) => ("{closure}".to_string(), format!("{idx}")),
                        _ => ("".to_string(), format!("{idx}")),
                    };
                    proj.push(J::A(vec![s("f"), s(name), s(adt), i(*idx)]));
                    t = *ft;
                    var = None;
                }
                ProjectionElem::Downcast(v) => {
                    let nm = match t.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variant(*v).map(|v| v.name().to_string()).unwrap_or_default(),
                        _ => String::new(),
                    };
                    proj.push(J::A(vec![s("v"), s(nm), i(v.to_index())]));
                    var = Some(*v);
                }
                ProjectionElem::Index(l) => {
                    proj.push(J::A(vec![s("i"), i(*l)]));
                    t = elem_ty(t);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    proj.push(J::A(vec![s("ci"), i(*offset as usize), J::B(*from_end)]));
                    t = elem_ty(t);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    proj.push(J::A(vec![s("ss"), i(*from as usize), i(*to as usize), J::B(*from_end)]));
                }
                ProjectionElem::OpaqueCast(u) => {
                    t = *u;
                }
            }
        }
        let tid = self.ty(t);
        J::A(vec![i(p.local), J::A(proj), i(tid)])
    }

    fn op(&mut self, o: &Operand, locals: &[LocalDecl]) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, locals)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, locals)]),
            Operand::Constant(c) => self.konst(&c.const_),
            _ => J::A(vec![s("k"), J::O(vec![("c", s("unk"))]), i(0)]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, locals)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, locals);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p, locals), J::B(m)])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), self.place(p, locals), J::B(*m == Mutability::Mut)])
            }
            Rvalue::AddressOf(_, p) => J::A(vec![s("ref"), self.place(p, locals), J::B(true)]),
            Rvalue::Aggregate(k, ops) => {
                let o = J::A(ops.iter().map(|o| self.op(o, locals)).collect());
                let d = match k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.reg_adt(d);
                        J::A(vec![s("adt"), s(adt_name(d)), i(v.to_index())])
                    }
                    AggregateKind::Closure(d, a) => {
                        let m = self.closure(d, a);
                        J::A(vec![s("closure"), s(m)])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), d, o])
            }
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), s(format!("{b:?}")), self.op(x, locals), self.op(y, locals)]),
            Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), s(format!("{b:?}")), self.op(x, locals), self.op(y, locals)]),
            Rvalue::UnaryOp(b, x) => J::A(vec![s("un"), s(format!("{b:?}")), self.op(x, locals)]),
            Rvalue::Cast(k, x, t) => {
                let tid = self.ty(*t);
                let from = x.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.op(x, locals), i(tid), i(from)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(p, locals)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p, locals)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.op(o, locals)]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn loc(&mut self, sp: Span) -> J {
        let int = rustc_public::rustc_internal::internal(self.tcx, sp);
        let cs = int.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(cs.lo());
        let f = lo.file.name.prefer_remapped_unconditionally().to_string();
        let mac = int.from_expansion();
        J::A(vec![s(f), i(lo.line), J::B(mac)])
    }

    fn body(&mut self, inst: Instance) {
        let Some(b) = inst.body() else { return };
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let int = rustc_public::rustc_internal::internal(self.tcx, inst);
        let did = int.def_id();
        let path = self.tcx.def_path_str(did);
        let is_clo = self.tcx.is_closure_like(did);
        let kr = self.tcx.crate_name(did.krate).to_string();
        let m = inst.mangled_name().to_string();
        let argc = b.arg_locals().len();
        let mut ls: Vec<(usize, String)> = vec![];
        let mut names = vec![J::Null; locals.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local] = s(v.name.to_string());
                }
                let _ = &mut ls;
            }
        }
        let lj: Vec<J> = locals.iter().map(|l| i(self.ty(l.ty))).collect();
        let mut bj = vec![];
        // which blocks are only cleanup: reachable only via unwind edges
        let mut norm = vec![false; b.blocks.len()];
        let mut st = vec![0usize];
        while let Some(x) = st.pop() {
            if norm[x] {
                continue;
            }
            norm[x] = true;
            let t = &b.blocks[x].terminator;
            let uw = match t.kind.unwind() {
                Some(UnwindAction::Cleanup(c)) => Some(*c),
                _ => None,
            };
            for sx in t.successors() {
                if Some(sx) != uw {
                    st.push(sx);
                }
            }
        }
        for (bi, bb) in b.blocks.iter().enumerate() {
            if !norm[bi] {
                bj.push(J::Null);
                continue;
            }
            let mut sj = vec![];
            for st in &bb.statements {
                if let StatementKind::Assign(p, r) = &st.kind {
                    let pj = self.place(p, &locals);
                    let rj = self.rvalue(r, &locals);
                    let l = self.loc(st.source_info.span);
                    sj.push(J::A(vec![pj, rj, l]));
                }
            }
            let t = &bb.terminator;
            let l = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), i(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, &locals);
                    let br = targets.branches().map(|(v, t)| J::A(vec![J::I(v as i128), i(t)])).collect();
                    J::A(vec![s("switch"), o, J::A(br), i(targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, &locals);
                    J::A(vec![s("drop"), i(*target), p])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = match func.ty(&locals).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee(d, &a, false),
                        _ => J::O(vec![("n", s("<indirect>")), ("op", self.op(func, &locals)), ("a", J::A(vec![]))]),
                    };
                    let aj = J::A(args.iter().map(|a| self.op(a, &locals)).collect());
                    let d = self.place(destination, &locals);
                    J::A(vec![s("call"), c, aj, d, target.map(i).unwrap_or(J::Null)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut k = format!("{msg:?}");
                    if let Some(p) = k.find(|c: char| !c.is_alphanumeric()) {
                        k.truncate(p);
                    }
                    let extra = match msg {
                        AssertMessage::BoundsCheck { len, index } => J::A(vec![self.op(len, &locals), self.op(index, &locals)]),
                        AssertMessage::Overflow(o, x, y) => J::A(vec![s(format!("{o:?}")), self.op(x, &locals), self.op(y, &locals)]),
                        _ => J::Null,
                    };
                    J::A(vec![s("assert"), self.op(cond, &locals), J::B(*expected), s(k), i(*target), extra])
                }
                _ => J::A(vec![s("abort")]),
            };
            bj.push(J::A(vec![J::A(sj), tj, l]));
        }
        let sp = self.loc(b.span);
        let targs = self.gargs(&inst.args());
        self.out.push((
            m,
            J::O(vec![
                ("n", s(path)),
                ("full", s(inst.name().to_string())),
                ("kr", s(kr)),
                ("clo", J::B(is_clo)),
                ("argc", i(argc)),
                ("ta", targs),
                ("loc", sp),
                ("names", J::A(names)),
                ("locals", J::A(lj)),
                ("blocks", J::A(bj)),
            ]),
        ));
    }
}

const FORWARD: &[&str] = &["core::str::<impl str>::parse", "std::str::<impl str>::parse", "<T as std::convert::Into<U>>::into", "<T as std::convert::TryInto<U>>::try_into"];

fn elem_ty(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Array(u, _)) | TyKind::RigidTy(RigidTy::Slice(u)) => u,
        _ => t,
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) {
    let local = rustc_public::local_crate();
    let name = local.name.to_string();
    let outdir = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let kind = if rustc_public::entry_fn().is_some() { "bin" } else { "lib" };
    let mut iter_next = None;
    'o: for c in rustc_public::find_crates("core") {
        for t in c.trait_decls() {
            let n = t.name().to_string();
            if n.ends_with("iter::Iterator") || n == "std::iter::Iterator" || n.ends_with("::Iterator") && n.contains("iter") {
                for ai in t.associated_items() {
                    if ai.def_id.name().to_string().ends_with("::next") {
                        let d = rustc_public::rustc_internal::internal(tcx, ai.def_id.def_id());
                        let ty = tcx.type_of(d).skip_binder();
                        if let TyKind::RigidTy(RigidTy::FnDef(fd, _)) = rustc_public::rustc_internal::stable(ty).kind() {
                            iter_next = Some(fd);
                            break 'o;
                        }
                    }
                }
            }
        }
    }
    let mut cx = Ctx {
        tcx,
        types: HashMap::new(),
        type_j: vec![],
        adts: BTreeMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        out: vec![],
        iter_next,
        local: std::env::var("MIRFACTS_CRATES").unwrap_or_default().split(',').map(|x| x.to_string()).collect(),
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) || it.requires_monomorphization() {
            continue;
        }
        if let Ok(inst) = Instance::try_from(it) {
            if inst.has_body() {
                roots.push(s(inst.mangled_name().to_string()));
                cx.enq(inst);
            }
        }
    }
    let mut entry = J::Null;
    if let Some(e) = rustc_public::entry_fn() {
        if let Ok(inst) = Instance::try_from(e) {
            entry = s(inst.mangled_name().to_string());
        }
    }
    while let Some(inst) = cx.queue.pop_front() {
        cx.body(inst);
    }
    let mut o = String::new();
    o.push_str("{\"crate\":");
    ws(&name, &mut o);
    o.push_str(",\"kind\":");
    ws(kind, &mut o);
    o.push_str(",\"iter_next\":");
    J::B(cx.iter_next.is_some()).w(&mut o);
    o.push_str(",\"entry\":");
    entry.w(&mut o);
    o.push_str(",\"roots\":");
    J::A(roots).w(&mut o);
    o.push_str(",\"types\":");
    J::A(std::mem::take(&mut cx.type_j)).w(&mut o);
    o.push_str(",\"adts\":{");
    for (k, (n, j)) in cx.adts.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        ws(n, &mut o);
        o.push(':');
        j.w(&mut o);
    }
    o.push_str("},\"insts\":{");
    for (k, (n, j)) in cx.out.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        ws(n, &mut o);
        o.push_str(":\n");
        j.w(&mut o);
    }
    o.push_str("}}\n");
    std::fs::create_dir_all(&outdir).expect("outdir");
    std::fs::write(format!("{outdir}/{name}-{kind}.json"), o).expect("write facts");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut rustc = None;
    if args.len() > 1 && (args[1] == "rustc" || args[1].ends_with("/rustc")) {
        rustc = Some(args.remove(1));
    }
    let crates = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    let want = name.as_deref().is_some_and(|n| crates.split(',').any(|c| c == n));
    if want {
        for f in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Zinline-mir=no"] {
            args.push(f.to_string());
        }
        let r: Result<(), _> = rustc_public::run_with_tcx!(&args, |tcx| {
            dump(tcx);
            ControlFlow::<(), ()>::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        // Everything else: the real compiler.
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(rustc.unwrap_or_else(|| "rustc".to_string())).args(&args[1..]).exec();
        eprintln!("mirfacts: cannot run rustc: {e}");
        std::process::exit(1);
    }
}
