//! rustc driver: dumps the monomorphic MIR of every function of the crate being compiled (and of
//! the generic/inline std functions it calls, up to a stop list) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER, so only the crate in /repo goes through the dump; the text that
//! is verified is therefore what rustc itself lowered from /repo's current source.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::rustc_internal;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone)]
enum J { S(String), N(i128), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(x) => { let _ = write!(o, "{}", x); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>, ty_out: Vec<J>,
    insts: HashMap<Instance, usize>, inst_list: Vec<Instance>, work: Vec<usize>,
}

const DESCEND: &[&str] = &["core", "std", "alloc", "mirshim"];
const DEFAULTS: &[&str] = &["std::iter::Iterator::fold", "std::iter::Iterator::try_fold", "std::iter::Iterator::all", "std::iter::Iterator::any",
    "std::iter::Iterator::position", "std::iter::Iterator::find", "std::iter::Iterator::find_map", "std::iter::Iterator::for_each",
    "std::iter::Iterator::count", "std::iter::Iterator::last", "std::iter::Iterator::try_for_each", "std::iter::Iterator::reduce",
    "std::iter::Iterator::nth", "std::iter::Iterator::sum"];
const STOP: &[&str] = &["fmt::", "regex", "std::io", "::collections::", "hash::", "::raw_vec", "alloc::alloc",
    "::str::pattern", "std::panicking", "core::panicking", "::unicode", "std::sys", "std::rt", "::num::flt2dec", "num::imp::"];

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&k) = self.insts.get(&i) { return k; }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.work.push(k);
        k
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        J::A(a.0.iter().map(|g| match g {
            GenericArgKind::Type(t) => n(self.ty(*t)),
            GenericArgKind::Const(c) => match c.eval_target_usize() { Ok(v) => J::O(vec![("const", J::N(v as i128))]), Err(_) => J::O(vec![("const", J::Null)]) },
            GenericArgKind::Lifetime(_) => J::Null,
        }).collect())
    }
    fn fields(&mut self, fs: Vec<FieldDef>, a: &GenericArgs) -> J {
        J::A(fs.iter().map(|f| { let t = f.ty_with_args(a); J::A(vec![s(f.name.clone()), n(self.ty(t))]) }).collect())
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&k) = self.tys.get(&t) { return k; }
        let k = self.ty_out.len();
        self.tys.insert(t, k);
        self.ty_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{}", t)))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => { o.push(("k", s("int"))); o.push(("bits", n(i.num_bytes() * 8))); }
                RigidTy::Uint(i) => { o.push(("k", s("uint"))); o.push(("bits", n(i.num_bytes() * 8))); }
                RigidTy::Float(f) => { o.push(("k", s("float"))); o.push(("bits", n(match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }))); }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Adt(d, a) => {
                    o.push(("k", s(match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" })));
                    o.push(("name", s(d.name())));
                    o.push(("local", J::B(d.krate().is_local)));
                    let g = self.gargs(&a);
                    o.push(("args", g));
                    let name = d.name();
                    // data layout is wanted for the crate's own types and the plain std enums/structs
                    let open = d.krate().is_local || name.starts_with("std::") || name.starts_with("core::") || name.starts_with("alloc::") || name.ends_with("::LocalResult");
                    if open {
                        let vs = d.variants().iter().map(|v| {
                            let fs = self.fields(v.fields(), &a);
                            let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                            J::O(vec![("name", s(v.name())), ("discr", J::N(disc as i128)), ("fields", fs)])
                        }).collect();
                        o.push(("variants", J::A(vs)));
                        if d.kind() == AdtKind::Enum {
                            if let Some(dt) = t.kind().discriminant_ty() { let q = self.ty(dt); o.push(("discr_ty", n(q))); }
                        }
                    }
                }
                RigidTy::Array(e, c) => {
                    o.push(("k", s("array"))); let q = self.ty(e); o.push(("elem", n(q)));
                    o.push(("len", match c.eval_target_usize() { Ok(v) => J::N(v as i128), Err(_) => J::Null }));
                }
                RigidTy::Slice(e) => { o.push(("k", s("slice"))); let q = self.ty(e); o.push(("elem", n(q))); }
                RigidTy::RawPtr(e, m) => { o.push(("k", s("ptr"))); let q = self.ty(e); o.push(("to", n(q))); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::Ref(_, e, m) => { o.push(("k", s("ref"))); let q = self.ty(e); o.push(("to", n(q))); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::FnDef(d, a) => {
                    o.push(("k", s("fndef"))); o.push(("name", s(d.name())));
                    o.push(("local", J::B(d.krate().is_local)));
                    let g = self.gargs(&a); o.push(("args", g));
                    match Instance::resolve(d, &a) { Ok(i) => { let q = self.inst(i); o.push(("inst", n(q))); } Err(_) => o.push(("inst", J::Null)) }
                    if let Some(q) = self.shim(&d.name(), &a) { o.push(("shim", n(q))); }
                    if self.tcx.is_constructor(rustc_internal::internal(self.tcx, d.def_id())) {
                        if let Some(sig) = t.kind().fn_sig() { let q = self.ty(sig.skip_binder().output()); o.push(("ctor", n(q))); }
                    }
                    if DEFAULTS.contains(&d.name().as_str()) {
                        // the trait's own default body with these type arguments: what an override has to agree with
                        let di = rustc_internal::internal(self.tcx, d.def_id());
                        let ai = rustc_internal::internal(self.tcx, a.clone());
                        let q = self.inst(rustc_internal::stable(rustc_middle::ty::Instance::new_raw(di, ai)));
                        o.push(("dflt", n(q)));
                    }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(d, a) => {
                    o.push(("k", s("closure"))); o.push(("name", s(d.name())));
                    let g = self.gargs(&a); o.push(("args", g));
                    // upvar tuple type is the last generic arg
                    if let Some(GenericArgKind::Type(t)) = a.0.last() { let q = self.ty(*t); o.push(("upvars", n(q))); }
                    for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(d, &a, kind) {
                            if i.kind == InstanceKind::Item { let q = self.inst(i); o.push(("inst", n(q))); break; }
                        }
                    }
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Tuple(v) => { o.push(("k", s("tuple"))); let v = v.iter().map(|t| n(self.ty(*t))).collect(); o.push(("elems", J::A(v))); }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[k] = J::O(o);
        k
    }

    /// The loop that says what a collecting function of std does for these types.
    fn shim(&mut self, name: &str, a: &GenericArgs) -> Option<usize> {
        if name == "std::iter::Iterator::nth" {
            let c = rustc_public::find_crates("mirshim").into_iter().next()?;
            let d = c.fn_defs().into_iter().find(|d| d.name().ends_with("nth"))?;
            let di = rustc_internal::internal(self.tcx, d.def_id()); let ai = rustc_internal::internal(self.tcx, a.clone());
            return Some(self.inst(rustc_internal::stable(rustc_middle::ty::Instance::new_raw(di, ai))));
        }
        if name != "std::iter::Iterator::collect" && name != "std::iter::Extend::extend" { return None; }
        let t: Vec<Ty> = a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect();
        let g = |t: Ty| GenericArgKind::Type(t);
        let adt = |t: Ty| match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d.name(), a.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect::<Vec<_>>())), _ => None };
        let kind = |t: Ty| { let s = format!("{}", t); if s == "char" { "char" } else if s.ends_with("str") && s.starts_with('&') { "str" } else if s == "std::string::String" { "string" } else { "" } };
        let (f, args) = if name == "std::iter::Iterator::collect" {
            let (it, to) = (t[0], t[1]);
            let (n, x) = adt(to)?;
            match n.as_str() {
                "std::vec::Vec" | "alloc::vec::Vec" => ("vec_collect".to_string(), vec![g(x[0]), g(it)]),
                "std::string::String" | "alloc::string::String" => { let k = kind(self.item(it)?); if k == "" { return None; } (format!("string_collect_{}", k), vec![g(it)]) }
                _ if n.ends_with("BitVec") => ("bits_collect".to_string(), vec![g(to), g(it)]),
                "std::option::Option" | "core::option::Option" => { let (m, y) = adt(x[0])?; if !m.ends_with("vec::Vec") { return None; } ("option_collect".to_string(), vec![g(y[0]), g(it)]) }
                "std::result::Result" | "core::result::Result" => { let (m, y) = adt(x[0])?; if !m.ends_with("vec::Vec") { return None; } ("result_collect".to_string(), vec![g(y[0]), g(x[1]), g(it)]) }
                _ => return None,
            }
        } else {
            let (n, x) = adt(t[0])?;
            if n.ends_with("vec::Vec") { if format!("{}", x[0]) != format!("{}", t[1]) { return None; } ("vec_extend".to_string(), vec![g(x[0]), g(t[2])]) }
            else if n.ends_with("string::String") { let k = kind(t[1]); if k != "char" && k != "str" { return None; } (format!("string_extend_{}", k), vec![g(t[2])]) }
            else if n.ends_with("BitVec") && format!("{}", t[1]) == "bool" { ("bits_extend".to_string(), vec![g(t[0]), g(t[2])]) }
            else { return None; }
        };
        let c = rustc_public::find_crates("mirshim").into_iter().next()?;
        let src = t.get(1).and_then(|_| if f == "vec_collect" { adt(t[0]) } else if f == "vec_extend" { adt(t[2]) } else { None });
        let f = match src {
            Some((n, _)) if ["Filter", "FilterMap", "Flatten", "FlatMap"].iter().any(|x| n.ends_with(&format!("::{}", x))) => format!("{}_each", f),
            _ => f,
        };
        let d = c.fn_defs().into_iter().find(|d| d.name().ends_with(&format!("::{}", f)) || d.name() == f)?;
        // lifetime parameters come first
        let di = rustc_internal::internal(self.tcx, d.def_id());
        let mut it = args.into_iter();
        let full = rustc_middle::ty::GenericArgs::for_item(self.tcx, di, |p, _| match p.kind {
            rustc_middle::ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
            _ => match it.next() { Some(GenericArgKind::Type(t)) => rustc_internal::internal(self.tcx, t).into(), _ => panic!("shim arguments") },
        });
        Some(self.inst(rustc_internal::stable(rustc_middle::ty::Instance::new_raw(di, full))))
    }
    fn item(&self, it: Ty) -> Option<Ty> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let item = tcx.associated_item_def_ids(tr).iter().copied().find(|d| tcx.item_name(*d).as_str() == "Item")?;
        let t = rustc_internal::internal(tcx, it);
        let p = rustc_middle::ty::Ty::new_projection(tcx, rustc_middle::ty::IsRigid::No, item, [t]);
        let r = tcx.try_normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new(p)).ok()?;
        Some(rustc_internal::stable(r))
    }

    fn read_uint(a: &Allocation, off: usize, len: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in 0..len { let b = (*a.bytes.get(off + i)?)?; v |= (b as u128) << (8 * i); }
        Some(v)
    }
    /// Structural decoding of a constant.
    fn val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        let bad = |m: &str| J::O(vec![("bad", s(m))]);
        if depth > 12 { return bad("depth"); }
        let layout = match t.layout() { Ok(l) => l.shape(), Err(_) => return bad("layout") };
        let size = layout.size.bytes();
        let r = match t.kind() { TyKind::RigidTy(r) => r, _ => return bad("kind") };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) =>
                match Self::read_uint(a, off, size) { Some(v) => J::O(vec![("u", s(v.to_string()))]), None => bad("uninit") },
            RigidTy::Tuple(ts) => {
                let offs = match layout.fields { FieldsShape::Arbitrary { offsets } => offsets, _ => return if ts.is_empty() { J::O(vec![("f", J::A(vec![]))]) } else { bad("tuple") } };
                J::O(vec![("f", J::A(ts.iter().zip(offs.iter()).map(|(t, o)| self.val(a, off + o.bytes(), *t, depth + 1)).collect()))])
            }
            RigidTy::Array(e, _) => {
                let (stride, count) = match layout.fields { FieldsShape::Array { stride, count } => (stride.bytes(), count), _ => return bad("array") };
                if count > 4096 { return bad("bigarray"); }
                J::O(vec![("f", J::A((0..count as usize).map(|i| self.val(a, off + i * stride, e, depth + 1)).collect()))])
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                let base = match Self::read_uint(a, off, 8) { Some(b) => b as usize, None => return bad("uninit") };
                let meta = if size == 16 { Self::read_uint(a, off + 8, 8).map(|x| x as usize) } else { None };
                match prov {
                    None => J::O(vec![("addr", n(base)), ("len", meta.map(n).unwrap_or(J::Null))]),
                    Some(p) => match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Memory(m) => match to.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let l = meta.unwrap_or(0);
                                let by: Vec<J> = (base..base + l).map(|i| m.bytes.get(i).and_then(|b| *b).map(|b| n(b as usize)).unwrap_or(J::Null)).collect();
                                J::O(vec![("str", J::A(by))])
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let l = meta.unwrap_or(0);
                                if l > 4096 { return bad("bigslice"); }
                                let st = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                J::O(vec![("ref", J::O(vec![("f", J::A((0..l).map(|i| self.val(&m, base + i * st, e, depth + 1)).collect()))]))])
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => bad("dyn"),
                            _ => J::O(vec![("ref", self.val(&m, base, to, depth + 1))]),
                        },
                        GlobalAlloc::Static(d) => match d.eval_initializer() {
                            // a static nobody can write to is a constant
                            Ok(m) if m.mutability == rustc_public::mir::Mutability::Not && !matches!(to.kind(), TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..))) =>
                                J::O(vec![("ref", self.val(&m, base, to, depth + 1))]),
                            r => {
                                let mut fs = vec![];
                                if let Ok(m) = r { for (_, p) in m.provenance.ptrs.iter() { if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) { let q = self.inst(i); fs.push(n(q)); } } }
                                J::O(vec![("static", s(d.name())), ("fns", J::A(fs))])
                            }
                        },
                        GlobalAlloc::Function(i) => { let q = self.inst(i); J::O(vec![("fn", n(q))]) }
                        _ => bad("alloc"),
                    },
                }
            }
            RigidTy::FnDef(..) => J::O(vec![("zst", J::B(true))]),
            RigidTy::FnPtr(..) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                match prov.map(|p| GlobalAlloc::from(p.0)) { Some(GlobalAlloc::Function(i)) => { let q = self.inst(i); J::O(vec![("fn", n(q))]) } _ => bad("fnptr") }
            }
            RigidTy::Adt(d, ga) => {
                match d.kind() {
                    AdtKind::Struct => {
                        let offs: Vec<usize> = match layout.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        let fs = d.variants()[0].fields();
                        if fs.len() != offs.len() { return bad("fields"); }
                        J::O(vec![("v", n(0)), ("f", J::A(fs.iter().zip(offs.iter()).map(|(f, o)| { let ft = f.ty_with_args(&ga); self.val(a, off + o, ft, depth + 1) }).collect()))])
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match layout.variants {
                            VariantsShape::Empty => return bad("empty"),
                            VariantsShape::Single { index } => {
                                let o = match layout.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                                (index.to_index(), o)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = match &layout.fields { FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(), _ => return bad("tagf") };
                                let tsize = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                        rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                        _ => 8,
                                    },
                                };
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let tagv = match Self::read_uint(a, off + toff, tsize) { Some(v) => v, None => return bad("tag uninit") };
                                let vidx = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut r = None;
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                        for v in d.variants() { if d.discriminant_for_variant(v.idx()).val & mask == tagv { r = Some(v.idx().to_index()); } }
                                        match r { Some(v) => v, None => return bad("tag") }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                        let rel = tagv.wrapping_sub(niche_start) & mask;
                                        let (lo, hi) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                        if !has_prov && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                    }
                                };
                                (vidx, variants[vidx].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let fs = d.variants()[vi].fields();
                        if fs.len() != offs.len() { return bad("efields"); }
                        J::O(vec![("v", n(vi)), ("f", J::A(fs.iter().zip(offs.iter()).map(|(f, o)| { let ft = f.ty_with_args(&ga); self.val(a, off + o, ft, depth + 1) }).collect()))])
                    }
                    AdtKind::Union => bad("union"),
                }
            }
            RigidTy::Closure(..) => if size == 0 { J::O(vec![("zst", J::B(true))]) } else { bad("closure") },
            _ => bad("other"),
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let pr = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => J::A(vec![s("*")]),
            ProjectionElem::Field(i, t) => J::A(vec![s("."), n(*i), n(self.ty(*t))]),
            ProjectionElem::Index(l) => J::A(vec![s("[]"), n(*l)]),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("[c]"), J::N(*offset as i128), J::N(*min_length as i128), J::B(*from_end)]),
            ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("[s]"), J::N(*from as i128), J::N(*to as i128), J::B(*from_end)]),
            ProjectionElem::Downcast(v) => J::A(vec![s("as"), n(v.to_index())]),
            ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
        }).collect();
        J::A(vec![n(p.local), J::A(pr)])
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtc"), s(format!("{:?}", r))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tt = self.ty(t);
                let v = match c.const_.kind() {
                    ConstantKind::Allocated(a) => self.val(a, 0, t, 0),
                    ConstantKind::ZeroSized => J::O(vec![("zst", J::B(true))]),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(t, a) => self.val(a, 0, *t, 0),
                        TyConstKind::ZSTValue(_) => J::O(vec![("zst", J::B(true))]),
                        _ => J::O(vec![("bad", s("tyconst"))]),
                    },
                    _ => J::O(vec![("bad", s("const"))]),
                };
                J::A(vec![s("const"), n(tt), v])
            }
        }
    }
    fn rv(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(k, p) => J::A(vec![s("addr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); J::A(vec![s("adt"), n(self.ty(t)), n(v.to_index()), f.map(n).unwrap_or(J::Null)]) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); J::A(vec![s("closure"), n(self.ty(t))]) }
                    AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), n(self.ty(*t))]),
                    _ => J::A(vec![s("other")]),
                };
                let o = ops.iter().map(|x| self.op(x)).collect();
                J::A(vec![s("agg"), kk, J::A(o)])
            }
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), s(format!("{:?}", b)), self.op(x), self.op(y)]),
            Rvalue::Cast(k, o, t) => { let c = s(format!("{:?}", k)); J::A(vec![s("cast"), c, self.op(o), n(self.ty(*t))]) }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Ref(_, k, p) => { let m = match k { BorrowKind::Shared => "shared", BorrowKind::Fake(_) => "fake", BorrowKind::Mut { .. } => "mut" }; J::A(vec![s("ref"), s(m), self.place(p)]) }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if *m == Mutability::Mut { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(o), match c.eval_target_usize() { Ok(v) => J::N(v as i128), Err(_) => J::Null }]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o)]),
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o)]),
        }
    }
    fn body(&mut self, b: &Body) -> J {
        let blocks = b.blocks.iter().map(|bb| {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => { let l = x.source_info.span.get_lines().start_line; st.push(J::A(vec![s("="), self.place(p), self.rv(r), n(l)])) }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![s("setdiscr"), self.place(place), n(variant_index.to_index())])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(J::A(vec![s("assume"), self.op(o)])),
                    StatementKind::Intrinsic(_) => st.push(J::A(vec![s("copynonoverlapping")])),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = n(t.source_info.span.get_lines().start_line);
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, b)| J::A(vec![s(v.to_string()), n(b)])).collect();
                    J::A(vec![s("switch"), self.op(discr), J::A(br), n(targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Resume | TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), n(*target)]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = args.iter().map(|x| self.op(x)).collect();
                    J::A(vec![s("call"), f, J::A(a), self.place(destination), target.map(n).unwrap_or(J::Null)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(o, ..) => format!("overflow {:?}", o),
                        AssertMessage::OverflowNeg(_) => "overflow neg".to_string(),
                        AssertMessage::DivisionByZero(_) => "div by zero".to_string(),
                        AssertMessage::RemainderByZero(_) => "rem by zero".to_string(),
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), self.op(cond), J::B(*expected), s(m), n(*target)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            J::O(vec![("st", J::A(st)), ("t", tj), ("line", line)])
        }).collect();
        let locals = b.locals().iter().map(|l| n(self.ty(l.ty))).collect();
        let names = b.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) => Some(J::A(vec![s(v.name.clone()), self.place(p)])), _ => None }).collect();
        let spread = match b.spread_arg() { Some(l) => n(l), None => J::Null };
        J::O(vec![("argc", n(b.arg_locals().len())), ("locals", J::A(locals)), ("blocks", J::A(blocks)), ("names", J::A(names)), ("spread", spread)])
    }
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), inst_list: vec![], work: vec![] };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        let it: CrateItem = it;
        if it.kind() != rustc_public::ItemKind::Fn { continue; }
        if it.requires_monomorphization() { roots.push(J::A(vec![s(it.name()), J::Null])); continue; }
        if let Ok(i) = Instance::try_from(it) { let k = cx.inst(i); roots.push(J::A(vec![s(it.name()), n(k)])); }
    }
    let mut bodies: HashMap<usize, J> = HashMap::new();
    while let Some(k) = cx.work.pop() {
        let i = cx.inst_list[k];
        let name = i.name();
        let def = i.def.name();
        let kr = i.def.krate();
        let mut o = vec![("name", s(name.clone())), ("def", s(def.clone())), ("crate", s(kr.name.clone())), ("local", J::B(kr.is_local)),
            ("kind", s(format!("{:?}", i.kind)))];
        if let Some(nm) = i.intrinsic_name() { o.push(("intrinsic", s(nm))); }
        let ga = i.args();
        let g = cx.gargs(&ga); o.push(("args", g));
        let span = i.def.span();
        o.push(("file", s(span.get_filename())));
        o.push(("line", n(span.get_lines().start_line)));
        o.push(("line_end", n(span.get_lines().end_line)));
        let descend = kr.is_local || (DESCEND.contains(&kr.name.as_str()) && !STOP.iter().any(|p| def.contains(p)))
            || (kr.name == "chrono" && def.contains("LocalResult"));
        let skip = matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic | InstanceKind::Intrinsic);
        if descend && !skip && (i.kind == InstanceKind::Shim || i.has_body()) {
            if let Some(b) = i.body() { let bj = cx.body(&b); o.push(("body", bj)); }
        }
        bodies.insert(k, J::O(o));
    }
    let insts = (0..cx.inst_list.len()).map(|k| bodies.remove(&k).unwrap_or(J::Null)).collect();
    let j = J::O(vec![("types", J::A(cx.ty_out.clone())), ("insts", J::A(insts)), ("roots", J::A(roots))]);
    let mut o = String::new();
    j.w(&mut o);
    std::fs::write(&out, o).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if is && std::env::var("MIRDUMP_OUT").is_ok() {
        if let Ok(p) = std::env::var("MIRSHIM") {
            args.push("-Zunstable-options".into()); args.push("--extern".into()); args.push(format!("force:mirshim={}", p));
        }
        match rustc_public::run_with_tcx!(&args, analyze) {
            Ok(_) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
