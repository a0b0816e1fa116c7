// Dumps monomorphic MIR (with resolved callees, evaluated constants and type
// layouts) of everything reachable from the functions of the analysed crate.
// Used as RUSTC_WORKSPACE_WRAPPER. The analysis itself lives in ../analysis.
#![feature(rustc_private)]
#![allow(rustc::usage_of_ty_tykind)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_attr_ir::lang_items::LangItem;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<(usize, Ty<'tcx>)>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_queue: VecDeque<(usize, Instance<'tcx>, usize)>,
    inst_depth: Vec<usize>,
    inst_out: Vec<Option<String>>,
    stop: Vec<String>,
    /// crates whose bodies are followed (empty: all)
    follow: Vec<String>,
    max_depth: usize,
    pre: HashMap<DefId, Body<'tcx>>,
}

impl<'tcx> Dumper<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(None);
        self.ty_queue.push_back((i, t));
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    fn inst(&mut self, i: Instance<'tcx>, depth: usize) -> usize {
        if let Some(&n) = self.insts.get(&i) {
            if depth < self.inst_depth[n] {
                // re-dump not needed: BFS order guarantees the minimum depth
                // for items queued by FIFO
                self.inst_depth[n] = depth;
            }
            return n;
        }
        let n = self.inst_out.len();
        self.insts.insert(i, n);
        self.inst_out.push(None);
        self.inst_depth.push(depth);
        self.inst_queue.push_back((n, i, depth));
        n
    }
    fn layout_json(&mut self, t: Ty<'tcx>) -> String {
        match self.tcx.layout_of(self.env().as_query_input(t)) {
            Ok(l) => {
                let mut offs = vec![];
                if let rustc_abi::FieldsShape::Arbitrary { offsets, .. } = &l.fields {
                    for o in offsets.iter() {
                        offs.push(o.bytes().to_string());
                    }
                }
                format!(
                    "\"size\":{},\"align\":{},\"offs\":{}",
                    l.size.bytes(),
                    l.align.abi.bytes(),
                    list(offs)
                )
            }
            Err(_) => "\"size\":null,\"align\":null,\"offs\":[]".to_string(),
        }
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let s = with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Slice(e) => format!("\"k\":\"slice\",\"elem\":{}", self.ty(e)),
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "\"k\":\"array\",\"elem\":{},\"len\":{}",
                    self.ty(e),
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            ty::Ref(_, e, m) => format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::RawPtr(e, m) => format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", self.ty(e), m.is_mut()),
            ty::Tuple(ts) => {
                let l = self.layout_json(t);
                format!("\"k\":\"tuple\",\"fields\":{},{}", list(ts.iter().map(|x| self.ty(x).to_string())), l)
            }
            ty::Adt(def, args) => {
                let l = self.layout_json(t);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(self.tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.norm(f.ty(self.tcx, args).skip_norm_wip());
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), self.ty(ft)));
                    }
                    vs.push(format!(
                        "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                        esc(v.name.as_str()),
                        discr,
                        list(fs)
                    ));
                }
                let targs = list(args.types().map(|x| self.ty(x).to_string()));
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                format!(
                    "\"k\":\"adt\",\"adt\":{},\"path\":{},\"variants\":{},\"targs\":{},{}",
                    esc(kind),
                    esc(&with_no_trimmed_paths!(self.tcx.def_path_str(def.did()))),
                    list(vs),
                    targs,
                    l
                )
            }
            ty::Closure(did, args) => {
                let ups = args.as_closure().upvar_tys();
                let i = Instance::new_raw(did, args);
                let iid = self.inst(i, 0);
                format!(
                    "\"k\":\"closure\",\"fields\":{},\"inst\":{},\"path\":{}",
                    list(ups.iter().map(|x| self.ty(x).to_string())),
                    iid,
                    esc(&with_no_trimmed_paths!(self.tcx.def_path_str(did)))
                )
            }
            ty::Coroutine(did, args) => {
                let ups = args.as_coroutine().upvar_tys();
                let iid = if did.is_local() {
                    let i = Instance::new_raw(did, args);
                    self.inst(i, 0).to_string()
                } else {
                    "null".into()
                };
                format!(
                    "\"k\":\"coroutine\",\"fields\":{},\"inst\":{},\"path\":{}",
                    list(ups.iter().map(|x| self.ty(x).to_string())),
                    iid,
                    esc(&with_no_trimmed_paths!(self.tcx.def_path_str(did)))
                )
            }
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                let r = Instance::try_resolve(self.tcx, self.env(), did, args).ok().flatten();
                let iid = match r {
                    Some(i) => self.inst(i, 3).to_string(),
                    None => "null".into(),
                };
                format!(
                    "\"k\":\"fndef\",\"inst\":{},\"path\":{}",
                    iid,
                    esc(&with_no_trimmed_paths!(self.tcx.def_path_str(did)))
                )
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"s\":{},{}}}", esc(&s), body)
    }

    // ---- constants ----
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                let v: String = if let ty::Int(_) = t.kind() {
                    i.to_int(i.size()).to_string()
                } else {
                    i.to_bits(i.size()).to_string()
                };
                format!("{{\"c\":\"int\",\"v\":\"{}\",\"t\":{}}}", v, self.ty(t))
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.pointer(prov.alloc_id(), off, t, None)
            }
        }
    }
    fn pointer(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, meta: Option<u64>) -> String {
        let tid = self.ty(t);
        let pointee = match *t.kind() {
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => e,
            ty::FnPtr(..) => {
                if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(id) {
                    let n = self.inst(instance, 3);
                    return format!("{{\"c\":\"fnptr\",\"inst\":{},\"t\":{}}}", n, tid);
                }
                return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid);
            }
            _ => return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
        };
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(_) => {
                let inner = match *pointee.kind() {
                    ty::Str => match meta {
                        Some(n) => self.bytes(id, off, n, "str"),
                        None => "{\"c\":\"opaque\"}".into(),
                    },
                    ty::Slice(e) => match meta {
                        Some(n) => self.seq(id, off, n, e, true),
                        None => "{\"c\":\"opaque\"}".into(),
                    },
                    _ => self.mem(id, off, pointee),
                };
                format!("{{\"c\":\"ref\",\"t\":{},\"v\":{}}}", tid, inner)
            }
            GlobalAlloc::Static(d) => format!(
                "{{\"c\":\"static\",\"t\":{},\"path\":{}}}",
                tid,
                esc(&with_no_trimmed_paths!(self.tcx.def_path_str(d)))
            ),
            GlobalAlloc::Function { instance } => {
                let n = self.inst(instance, 3);
                format!("{{\"c\":\"fnptr\",\"inst\":{},\"t\":{}}}", n, tid)
            }
            _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
        }
    }
    fn bytes(&mut self, id: AllocId, off: Size, n: u64, kind: &str) -> String {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else {
            return "{\"c\":\"opaque\"}".into();
        };
        let s = off.bytes() as usize;
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
        let mut h = String::new();
        for x in b {
            let _ = write!(h, "{:02x}", x);
        }
        format!("{{\"c\":\"{}\",\"hex\":\"{}\"}}", kind, h)
    }
    fn seq(&mut self, id: AllocId, off: Size, n: u64, e: Ty<'tcx>, slice: bool) -> String {
        let _ = slice;
        if let ty::Uint(ty::UintTy::U8) = e.kind() {
            return self.bytes(id, off, n, "bytes");
        }
        let Ok(l) = self.tcx.layout_of(self.env().as_query_input(e)) else {
            return "{\"c\":\"opaque\"}".into();
        };
        let es = l.size;
        let mut v = vec![];
        for i in 0..n.min(4096) {
            v.push(self.mem(id, off + es * i, e));
        }
        format!("{{\"c\":\"arr\",\"v\":{}}}", list(v))
    }
    fn mem(&mut self, id: AllocId, off: Size, t: Ty<'tcx>) -> String {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else {
            return "{\"c\":\"opaque\"}".into();
        };
        let tid = self.ty(t);
        let Ok(l) = self.tcx.layout_of(self.env().as_query_input(t)) else {
            return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid);
        };
        let dl = &self.tcx.data_layout;
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match a.inner().read_scalar(dl, AllocRange { start: off, size: l.size }, false) {
                    Ok(s) => self.scalar(s, t),
                    Err(_) => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                }
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let ps = dl.pointer_size();
                let p = a.inner().read_scalar(dl, AllocRange { start: off, size: ps }, true);
                let meta = if l.size > ps {
                    match e.kind() {
                        ty::Str | ty::Slice(_) => a
                            .inner()
                            .read_scalar(dl, AllocRange { start: off + ps, size: ps }, false)
                            .ok()
                            .and_then(|s| match s {
                                Scalar::Int(i) => Some(i.to_bits(i.size()) as u64),
                                _ => None,
                            }),
                        _ => None,
                    }
                } else {
                    None
                };
                match p {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, o) = p.prov_and_relative_offset();
                        self.pointer(prov.alloc_id(), o, t, meta)
                    }
                    _ => {
                        // possibly a dangling pointer to an empty slice
                        if meta == Some(0) {
                            format!("{{\"c\":\"ref\",\"t\":{},\"v\":{{\"c\":\"bytes\",\"hex\":\"\"}}}}", tid)
                        } else {
                            format!("{{\"c\":\"opaque\",\"t\":{}}}", tid)
                        }
                    }
                }
            }
            ty::FnPtr(..) => match a.inner().read_scalar(dl, AllocRange { start: off, size: l.size }, true) {
                Ok(s) => self.scalar(s, t),
                Err(_) => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
            },
            ty::Array(e, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => {
                    let v = self.seq(id, off, n, e, false);
                    format!("{{\"c\":\"array\",\"t\":{},\"v\":{}}}", tid, v)
                }
                None => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
            },
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() {
                    let fo = l.fields.offset(i);
                    v.push(self.mem(id, off + fo, x));
                }
                format!("{{\"c\":\"agg\",\"t\":{},\"var\":0,\"f\":{}}}", tid, list(v))
            }
            ty::Adt(def, args) if !def.is_union() => {
                let (vi, vl_offs): (VariantIdx, Vec<Size>) = match &l.variants {
                    Variants::Empty => return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                    Variants::Single { index } => {
                        (*index, (0..l.fields.count()).map(|i| l.fields.offset(i)).collect())
                    }
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let to = l.fields.offset(tag_field.as_usize());
                        let ts = tag.size(dl);
                        let is_ptr = matches!(tag.primitive(), rustc_abi::Primitive::Pointer(_));
                        let raw = a.inner().read_scalar(dl, AllocRange { start: off + to, size: ts }, is_ptr);
                        let raw: Option<u128> = match raw {
                            Ok(Scalar::Int(i)) => Some(i.to_bits(i.size())),
                            Ok(Scalar::Ptr(..)) => None,
                            Err(_) => return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(raw) = raw else {
                                    return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid);
                                };
                                match def
                                    .discriminants(self.tcx)
                                    .find(|(_, d)| ts.truncate(d.val) == raw)
                                {
                                    Some((vi, _)) => vi,
                                    None => return format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match raw {
                                None => *untagged_variant,
                                Some(raw) => {
                                    let rel = ts.truncate(raw.wrapping_sub(*niche_start));
                                    let st = niche_variants.start.as_u32() as u128;
                                    let n = niche_variants.last.as_u32() as u128 - st;
                                    if rel <= n {
                                        VariantIdx::from_u32((st + rel) as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            },
                        };
                        let vl = &variants[vi];
                        (
                            vi,
                            vl.field_offsets.iter().copied().collect(),
                        )
                    }
                };
                let mut v = vec![];
                let fields: Vec<Ty<'tcx>> = def
                    .variant(vi)
                    .fields
                    .iter()
                    .map(|f| self.norm(f.ty(self.tcx, args).skip_norm_wip()))
                    .collect();
                for (i, ft) in fields.into_iter().enumerate() {
                    let fo = vl_offs.get(i).copied().unwrap_or(Size::ZERO);
                    v.push(self.mem(id, off + fo, ft));
                }
                format!("{{\"c\":\"agg\",\"t\":{},\"var\":{},\"f\":{}}}", tid, vi.as_u32(), list(v))
            }
            _ => {
                if l.is_zst() {
                    format!("{{\"c\":\"zst\",\"t\":{}}}", tid)
                } else {
                    format!("{{\"c\":\"opaque\",\"t\":{}}}", tid)
                }
            }
        }
    }
    fn konst(&mut self, c: &Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("{{\"c\":\"zst\",\"t\":{}}}", tid);
        }
        match c.eval(self.tcx, self.env(), span) {
            Ok(ConstValue::ZeroSized) => {
                // unit struct / tuple / ZST adt
                self.zst(t)
            }
            Ok(ConstValue::Scalar(s)) => {
                match t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) => {
                        self.scalar(s, t)
                    }
                    _ => {
                        // newtype or enum represented as scalar: wrap in an allocation
                        let size = s.size();
                        match s {
                            Scalar::Int(i) => {
                                let bits = i.to_bits(size);
                                let bytes = bits.to_le_bytes();
                                let alloc = rustc_middle::mir::interpret::Allocation::from_bytes_byte_aligned_immutable(
                                    &bytes[..size.bytes() as usize], (),
                                );
                                let id = self.tcx.reserve_and_set_memory_alloc(self.tcx.mk_const_alloc(alloc));
                                self.mem(id, Size::ZERO, t)
                            }
                            _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
                        }
                    }
                }
            }
            Ok(ConstValue::Slice { alloc_id, meta }) => self.pointer(alloc_id, Size::ZERO, t, Some(meta)),
            Ok(ConstValue::Indirect { alloc_id, offset }) => self.mem(alloc_id, offset, t),
            Err(_) => format!("{{\"c\":\"opaque\",\"t\":{}}}", tid),
        }
    }
    fn zst(&mut self, t: Ty<'tcx>) -> String {
        let tid = self.ty(t);
        match *t.kind() {
            ty::Adt(def, args) if def.is_struct() => {
                let fields: Vec<Ty<'tcx>> = def
                    .non_enum_variant()
                    .fields
                    .iter()
                    .map(|f| self.norm(f.ty(self.tcx, args).skip_norm_wip()))
                    .collect();
                let v: Vec<String> = fields.into_iter().map(|x| self.zst(x)).collect();
                format!("{{\"c\":\"agg\",\"t\":{},\"var\":0,\"f\":{}}}", tid, list(v))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.zst(x)).collect();
                format!("{{\"c\":\"agg\",\"t\":{},\"var\":0,\"f\":{}}}", tid, list(v))
            }
            ty::Array(..) => format!("{{\"c\":\"array\",\"t\":{},\"v\":{{\"c\":\"arr\",\"v\":[]}}}}", tid),
            _ => format!("{{\"c\":\"zst\",\"t\":{}}}", tid),
        }
    }

    // ---- bodies ----
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                _ => "[\"x\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(v))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let k = self.konst(&c.const_, c.span);
                format!("[\"c\",{}]", k)
            }
            #[allow(unreachable_patterns)]
            _ => match o {
                Operand::RuntimeChecks(r) => {
                    // debug profile: overflow checks on, UB checks irrelevant here
                    let b = matches!(r, RuntimeChecks::OverflowChecks);
                    let t = self.ty(self.tcx.types.bool);
                    format!("[\"c\",{{\"c\":\"int\",\"v\":\"{}\",\"t\":{}}}]", b as u8, t)
                }
                _ => unreachable!(),
            },
        }
    }
    fn binop(b: BinOp) -> String {
        format!("{:?}", b)
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PtrToPtr => "ptr".to_string(),
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::Subtype => "subtype".to_string(),
                    CastKind::PointerCoercion(c, _) => match c {
                        ty::adjustment::PointerCoercion::Unsize => "unsize".to_string(),
                        ty::adjustment::PointerCoercion::MutToConstPointer => "ptr".to_string(),
                        ty::adjustment::PointerCoercion::ArrayToPointer => "arrptr".to_string(),
                        ty::adjustment::PointerCoercion::ReifyFnPointer(..) => "reify".to_string(),
                        ty::adjustment::PointerCoercion::ClosureFnPointer(..) => "reifyclosure".to_string(),
                        _ => "fnptr".to_string(),
                    },
                    k => format!("{:?}", k),
                };
                let from = o.ty(&body.local_decls, self.tcx);
                let (ot, ft) = (self.ty(*t), self.ty(from));
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(o), ot, ft)
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&Self::binop(*b)),
                    self.operand(&ab.0),
                    self.operand(&ab.1),
                    tid
                )
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                format!("[\"un\",{},{},{}]", esc(&format!("{:?}", u)), self.operand(o), tid)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tid = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), tid)
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                let (kind, var, af) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, af) => ("adt", v.as_u32(), *af),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::Coroutine(..) => ("coroutine", 0, None),
                    AggregateKind::CoroutineClosure(..) => ("coroutineclosure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let af = af.map(|f: FieldIdx| f.as_u32().to_string()).unwrap_or("null".into());
                format!("[\"agg\",\"{}\",{},{},{},{}]", kind, tid, var, list(v), af)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"opaque\",\"tls\"]".to_string(),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        esc(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn iter_next(&mut self, t: Ty<'tcx>, depth: usize) {
        let Some(next) = self.tcx.lang_items().get(LangItem::IteratorNext) else { return };
        let tr = self.tcx.parent(next);
        let infcx = self.tcx.infer_ctxt().build(self.env().typing_mode());
        if infcx.type_implements_trait(tr, [t], self.env().param_env).must_apply_modulo_regions() {
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env(), next, self.tcx.mk_args(&[t.into()])) {
                self.inst(i, depth);
            }
        }
    }
    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, depth: usize) -> String {
        let orig = with_no_trimmed_paths!(self.tcx.def_path_str(did));
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let cargs: Vec<String> = args
            .consts()
            .map(|c| c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()))
            .collect();
        let r = Instance::try_resolve(self.tcx, self.env(), did, args).ok().flatten();
        match r {
            Some(i) => {
                let n = self.inst(i, depth);
                format!(
                    "{{\"inst\":{},\"orig\":{},\"targs\":{},\"cargs\":{}}}",
                    n,
                    esc(&orig),
                    list(targs),
                    list(cargs)
                )
            }
            None => format!(
                "{{\"inst\":null,\"orig\":{},\"targs\":{},\"cargs\":{}}}",
                esc(&orig),
                list(targs),
                list(cargs)
            ),
        }
    }
    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, depth: usize) -> String {
        let sp = self.span(t.source_info.span);
        let k = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&body.local_decls, self.tcx);
                let tid = self.ty(dt);
                let vs: Vec<String> =
                    targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(discr),
                    list(vs),
                    targets.otherwise().as_u32(),
                    tid
                )
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                format!("[\"drop\",{},{}]", self.place(place), target.as_u32())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&body.local_decls, self.tcx);
                let callee = match *ft.kind() {
                    ty::FnDef(did, a) => {
                        let a = a.skip_binder();
                        self.callee(did, a, depth + 1)
                    }
                    _ => format!("{{\"ptr\":{}}}", self.operand(func)),
                };
                let v: Vec<String> = args.iter().map(|o| self.operand(&o.node)).collect();
                format!(
                    "[\"call\",{},{},{},{}]",
                    callee,
                    list(v),
                    self.place(destination),
                    target.map(|b| b.as_u32().to_string()).unwrap_or("null".into())
                )
            }
            TerminatorKind::TailCall { .. } => "[\"unreachable\"]".into(),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                    AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(_) => "divzero".to_string(),
                    AssertKind::RemainderByZero(_) => "remzero".to_string(),
                    AssertKind::ResumedAfterReturn(_)
                    | AssertKind::ResumedAfterPanic(_)
                    | AssertKind::ResumedAfterDrop(_) => "resumed".to_string(),
                    AssertKind::InvalidEnumConstruction(_) => "ubcheck:enum".to_string(),
                    _ => "ubcheck".to_string(),
                };
                format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, esc(&m), target.as_u32())
            }
            TerminatorKind::Yield { resume, resume_arg, .. } => {
                format!("[\"yield\",{},{}]", self.place(resume_arg), resume.as_u32())
            }
            TerminatorKind::CoroutineDrop => "[\"unreachable\"]".into(),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        };
        format!("{{\"k\":{},\"s\":{}}}", k, sp)
    }
    fn stopped(&self, path: &str, full: &str) -> bool {
        self.stop.iter().any(|p| path.starts_with(p.as_str()) || full.starts_with(p.as_str()))
    }
    fn inst_json(&mut self, i: Instance<'tcx>, depth: usize) -> String {
        let did = i.def_id();
        let path = with_no_trimmed_paths!(self.tcx.def_path_str(did));
        let full = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(did, i.args));
        let mut meta = String::new();
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(s) => match s {
                ShimKind::DropGlue(..) => "drop",
                ShimKind::Clone(..) => "clone",
                ShimKind::ClosureOnce { .. } => "closureonce",
                ShimKind::FnPtr(..) => "fnptrshim",
                ShimKind::Reify(..) => "reify",
                _ => "shim",
            },
        };
        let targs: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
        let cargs: Vec<String> = i
            .args
            .consts()
            .map(|c| c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()))
            .collect();
        // iterators consumed by library internals the analysis models directly: it needs their `next`
        if ["::from_iter", "::extend", "::spec_extend", "::extend_trusted", "::extend_desugared", "::from_iter_exact"]
            .iter()
            .any(|s| path.ends_with(s))
        {
            for t in i.args.types() {
                self.iter_next(t, depth);
            }
        }
        let is_closure = self.tcx.is_closure_like(did);
        let local = did.is_local();
        let name = self.tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let mut trait_path = String::new();
        if let Some(imp) = self.tcx.inherent_impl_of_assoc(did).or(self.tcx.trait_impl_of_assoc(did)) {
            if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                trait_path = with_no_trimmed_paths!(self.tcx.def_path_str(tr.skip_binder().def_id));
            }
        }
        let loc = self.span(self.tcx.def_span(did));
        let krate = self.tcx.crate_name(did.krate).to_string();
        let _ = write!(
            meta,
            "\"path\":{},\"full\":{},\"name\":{},\"kind\":\"{}\",\"targs\":{},\"cargs\":{},\"closure\":{},\"local\":{},\"trait\":{},\"loc\":{},\"crate\":{}",
            esc(&path),
            esc(&full),
            esc(&name),
            kind,
            list(targs),
            list(cargs),
            is_closure,
            local,
            esc(&trait_path),
            loc,
            esc(&krate)
        );
        if let InstanceKind::Shim(ShimKind::DropGlue(..)) = i.def {
            return format!("{{{},\"body\":null}}", meta);
        }
        let avail = match i.def {
            InstanceKind::Item(d) => {
                self.pre.contains_key(&d)
                    || (matches!(
                        self.tcx.def_kind(d),
                        DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)
                    ) && self.tcx.is_mir_available(d)
                        && !self.tcx.is_foreign_item(d))
            }
            InstanceKind::Shim(ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(
                ShimKind::Clone(..) | ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) | ShimKind::Reify(..),
            ) => true,
            _ => false,
        };
        let followed = self.follow.is_empty() || self.follow.iter().any(|c| *c == krate);
        if !avail || (!local && (depth > self.max_depth || !followed || self.stopped(&path, &full))) {
            return format!("{{{},\"body\":null}}", meta);
        }
        let body0: Body<'tcx> = match i.def {
            InstanceKind::Item(d) if self.pre.contains_key(&d) => self.pre[&d].clone(),
            d => self.tcx.instance_mir(d).clone(),
        };
        let body = match i.try_instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env(),
            EarlyBinder::bind(self.tcx, body0),
        ) {
            Ok(b) => b,
            Err(_) => return format!("{{{},\"body\":null}}", meta),
        };
        let ndepth = if local { 0 } else { depth };
        let mut blocks = vec![];
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            let _ = bi;
            if bb.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1, &body);
                        st.push(format!("[{},{},{}]", p, r, self.span(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[{},[\"setdiscr\",{}],\"\"]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(ni) => match &**ni {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => {
                            st.push("[null,[\"opaque\",\"copy_nonoverlapping\"],\"\"]".to_string())
                        }
                    },
                    _ => {}
                }
            }
            let t = self.term(bb.terminator(), &body, ndepth);
            blocks.push(format!("{{\"st\":{},\"t\":{}}}", list(st), t));
        }
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        format!(
            "{{{},\"body\":{{\"args\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}}}",
            meta,
            body.arg_count,
            body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into()),
            list(locals),
            list(blocks)
        )
    }
}

struct Cb;
impl Callbacks for Cb {
    // before the analysis consumes the coroutine bodies this dump wants to see
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let dir = match std::env::var("MIRDUMP_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
        if !want.split(',').any(|c| c == krate) {
            return Compilation::Continue;
        }
        let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
            .ok()
            .and_then(|f| std::fs::read_to_string(f).ok())
            .map(|s| {
                s.lines()
                    .map(|l| l.trim().to_string())
                    .filter(|l| !l.is_empty() && !l.starts_with('#'))
                    .collect()
            })
            .unwrap_or_default();
        let mut d = Dumper {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            ty_queue: VecDeque::new(),
            insts: HashMap::new(),
            inst_queue: VecDeque::new(),
            inst_depth: vec![],
            inst_out: vec![],
            stop,
            follow: std::env::var("MIRDUMP_FOLLOW")
                .unwrap_or_default()
                .split(',')
                .filter(|c| !c.is_empty())
                .map(|c| c.to_string())
                .collect(),
            max_depth: std::env::var("MIRDUMP_DEPTH").ok().and_then(|s| s.parse().ok()).unwrap_or(10),
            pre: HashMap::new(),
        };
        // coroutine bodies as written, before the state transform
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            if tcx.is_coroutine(did) {
                let (b, _) = tcx.mir_promoted(l);
                if !b.is_stolen() {
                    d.pre.insert(did, b.borrow().clone());
                }
            }
        }
        tcx.ensure_ok().analysis(());
        let mut roots = vec![];
        let mut generic_fns = vec![];
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                generic_fns.push(esc(&with_no_trimmed_paths!(tcx.def_path_str(did))));
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => unreachable!(),
            });
            let i = Instance::new_raw(did, args);
            roots.push(d.inst(i, 0));
        }
        // enum / const facts of the crate
        let mut consts = vec![];
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. })
                && !tcx.generics_of(did).requires_monomorphization(tcx)
            {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                let p = with_no_trimmed_paths!(tcx.def_path_str(did));
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let c = Const::Val(v, t);
                    let j = d.konst(&c, rustc_span::DUMMY_SP);
                    consts.push(format!("[{},{}]", esc(&p), j));
                }
            }
        }
        loop {
            let mut progress = false;
            while let Some((n, i, depth)) = d.inst_queue.pop_front() {
                progress = true;
                let j = d.inst_json(i, depth);
                d.inst_out[n] = Some(j);
            }
            while let Some((n, t)) = d.ty_queue.pop_front() {
                progress = true;
                let j = d.ty_json(t);
                d.ty_out[n] = Some(j);
            }
            if !progress {
                break;
            }
        }
        let mut out = String::new();
        out.push_str("{\"crate\":");
        out.push_str(&esc(&krate));
        out.push_str(",\"roots\":");
        out.push_str(&list(roots.iter().map(|r| r.to_string())));
        out.push_str(",\"generic_fns\":");
        out.push_str(&list(generic_fns));
        out.push_str(",\"consts\":");
        out.push_str(&list(consts));
        out.push_str(",\"types\":[\n");
        let n = d.ty_out.len();
        for (i, t) in d.ty_out.iter().enumerate() {
            out.push_str(t.as_deref().unwrap_or("null"));
            if i + 1 < n {
                out.push_str(",\n");
            }
        }
        out.push_str("],\"insts\":[\n");
        let n = d.inst_out.len();
        for (i, t) in d.inst_out.iter().enumerate() {
            out.push_str(t.as_deref().unwrap_or("null"));
            if i + 1 < n {
                out.push_str(",\n");
            }
        }
        out.push_str("]}\n");
        let f = format!("{}/{}.json", dir, krate);
        std::fs::write(&f, out).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
