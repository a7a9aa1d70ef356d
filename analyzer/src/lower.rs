//! Lowering of monomorphic MIR to a compact form with resolved layouts and callees.
use rustc_abi::{BackendRepr, FieldsShape, Primitive, Scalar, TagEncoding, VariantIdx, Variants};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Int { bits: u16, signed: bool },
    Ptr,
    Fat,
    Agg,
}

#[derive(Clone, Copy, Debug)]
pub struct TyI<'tcx> {
    pub size: u32,
    pub align: u32,
    pub kind: Kind,
    pub ty: Ty<'tcx>,
}

#[derive(Clone, Debug)]
pub enum Proj<'tcx> {
    /// fat: pointer has metadata
    Deref { fat: bool },
    Off(i64),
    Index { local: u32, stride: u32, len: Option<u64> },
    /// from end: offset counted back from slice length
    ConstIdxEnd { offset: u64, stride: u32 },
    SubsliceEnd { from: u64, to: u64, stride: u32 },
    SubsliceArr { from: u64, stride: u32 },
    Unsupported(&'static str, std::marker::PhantomData<&'tcx ()>),
}

#[derive(Clone, Debug)]
pub struct LPlace<'tcx> {
    pub local: u32,
    pub projs: Vec<Proj<'tcx>>,
    pub ti: TyI<'tcx>,
    pub unsized_: bool,
}

#[derive(Clone, Debug)]
pub enum LOp<'tcx> {
    Copy(LPlace<'tcx>),
    Move(LPlace<'tcx>),
    Const(mir::ConstValue, TyI<'tcx>),
    FnDef(TyI<'tcx>),
    Bool(bool, TyI<'tcx>),
    Bad(String),
}
impl<'tcx> LOp<'tcx> {
    pub fn ti(&self) -> Option<TyI<'tcx>> {
        match self {
            LOp::Copy(p) | LOp::Move(p) => Some(p.ti),
            LOp::Const(_, t) | LOp::FnDef(t) | LOp::Bool(_, t) => Some(*t),
            LOp::Bad(_) => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum DiscrR {
    Const(u128),
    Direct { off: u32, size: u32, dsize: u32, signed: bool },
    Niche { off: u32, size: u32, dsize: u32, untagged: u128, start: u128, vlo: u128, vhi: u128, ptr: bool },
    Uninhabited,
}

#[derive(Clone, Debug)]
pub enum LCast<'tcx> {
    Int { from_signed: bool },
    Same,
    FatToThin,
    PtrToInt,
    IntToPtr,
    UnsizeArr(u64),
    UnsizeDyn { src: Ty<'tcx>, dst: Ty<'tcx> },
    ReifyFn(Instance<'tcx>),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum LRv<'tcx> {
    Use(LOp<'tcx>),
    Repeat(LOp<'tcx>, u64, TyI<'tcx>),
    Ref(LPlace<'tcx>),
    Cast(LCast<'tcx>, LOp<'tcx>),
    Bin(BinOp, LOp<'tcx>, LOp<'tcx>, u32),
    Un(UnOp, LOp<'tcx>),
    Discr(LPlace<'tcx>, DiscrR),
    /// fields with offsets, then optional tag write
    Agg(Vec<(u32, LOp<'tcx>)>, Option<(u32, u32, u128)>),
    FatPtr(LOp<'tcx>, LOp<'tcx>),
    ThreadLocal,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum LSt<'tcx> {
    Assign(LPlace<'tcx>, LRv<'tcx>),
    SetDiscr(LPlace<'tcx>, Option<(u32, u32, u128)>),
    Live(u32),
    Dead(u32),
    CopyNon { src: LOp<'tcx>, dst: LOp<'tcx>, n: LOp<'tcx>, size: u32, align: u32 },
    Nop,
}

#[derive(Clone, Debug)]
pub enum Callee<'tcx> {
    Inst(Instance<'tcx>),
    Ptr(LOp<'tcx>),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum LTm<'tcx> {
    Goto(u32),
    Switch { op: LOp<'tcx>, targets: Vec<(u128, u32)>, otherwise: u32 },
    Return,
    Unreachable,
    Drop { place: LPlace<'tcx>, inst: Instance<'tcx>, target: u32 },
    Call { callee: Callee<'tcx>, args: Vec<LOp<'tcx>>, dest: LPlace<'tcx>, target: Option<u32>, untuple: bool },
    Assert { cond: LOp<'tcx>, expected: bool, target: u32, msg: String, overflow: bool, idx: Option<(LOp<'tcx>, LOp<'tcx>)> },
    Unsupported(String),
}

pub struct LBlock<'tcx> {
    pub st: Vec<(LSt<'tcx>, Span)>,
    pub tm: LTm<'tcx>,
    pub span: Span,
    pub cleanup: bool,
    /// first provenance id of the block's statements (0: outside the workspace)
    pub loc: u32,
}

pub struct LBody<'tcx> {
    pub inst: Instance<'tcx>,
    pub locals: Vec<TyI<'tcx>>,
    pub argc: usize,
    pub spread: Option<u32>,
    pub blocks: Vec<LBlock<'tcx>>,
    /// immediate post-dominator; u32::MAX = function exit, u32::MAX-1 = never reaches an exit
    pub ipdom: Vec<u32>,
    pub span: Span,
    pub name: String,
}

pub struct Lower<'tcx> {
    pub tcx: TyCtxt<'tcx>,
}

pub const EXIT: u32 = u32::MAX;
pub const NOEXIT: u32 = u32::MAX - 1;

impl<'tcx> Lower<'tcx> {
    pub fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        self.tcx
            .layout_of(self.env().as_query_input(ty))
            .unwrap_or_else(|e| panic!("layout of {ty:?}: {e:?}"))
    }
    pub fn tyi(&self, ty: Ty<'tcx>) -> TyI<'tcx> {
        let l = self.layout(ty);
        let (size, align) = (l.size.bytes() as u32, l.align.abi.bytes() as u32);
        let kind = match l.backend_repr {
            BackendRepr::Scalar(Scalar::Initialized { value, .. }) => match value {
                Primitive::Int(i, _) => Kind::Int { bits: i.size().bits() as u16, signed: ty.is_signed() },
                Primitive::Pointer(_) => Kind::Ptr,
                _ => Kind::Agg,
            },
            BackendRepr::ScalarPair { .. } if self.is_fat_ptr(ty) => Kind::Fat,
            _ => Kind::Agg,
        };
        TyI { size, align, kind, ty }
    }
    pub fn pointee(&self, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match ty.kind() {
            ty::Ref(_, t, _) | ty::RawPtr(t, _) => Some(*t),
            ty::Adt(d, _) if d.is_box() => ty.boxed_ty(),
            _ => None,
        }
    }
    pub fn is_unsized(&self, ty: Ty<'tcx>) -> bool {
        !ty.is_sized(self.tcx, self.env())
    }
    fn is_fat_ptr(&self, ty: Ty<'tcx>) -> bool {
        self.pointee(ty).is_some_and(|p| self.is_unsized(p))
    }
    fn mono<V: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, inst: Instance<'tcx>, v: V) -> V {
        inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env(),
            ty::EarlyBinder::bind(self.tcx, v),
        )
    }

    pub fn place(&self, inst: Instance<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> LPlace<'tcx> {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(self.mono(inst, body.local_decls[p.local].ty));
        let mut projs: Vec<Proj<'tcx>> = vec![];
        let push_off = |projs: &mut Vec<Proj<'tcx>>, o: i64| {
            if o == 0 {
                return;
            }
            if let Some(Proj::Off(x)) = projs.last_mut() {
                *x += o;
            } else {
                projs.push(Proj::Off(o));
            }
        };
        for elem in p.projection.iter() {
            let ty = pt.ty;
            match elem {
                ProjectionElem::Deref => {
                    let fat = self.is_fat_ptr(ty);
                    projs.push(Proj::Deref { fat });
                    pt = mir::PlaceTy::from_ty(self.pointee(ty).expect("deref"));
                }
                ProjectionElem::Field(f, fty) => {
                    let l = self.layout(ty);
                    let l = match pt.variant_index {
                        Some(v) => {
                            let cx = ty::layout::LayoutCx::new(tcx, self.env());
                            l.for_variant(&cx, v)
                        }
                        None => l,
                    };
                    let off = l.fields.offset(f.as_usize()).bytes() as i64;
                    push_off(&mut projs, off);
                    let fty = self.mono(inst, fty);
                    pt = mir::PlaceTy::from_ty(fty);
                }
                ProjectionElem::Downcast(_, v) => {
                    pt = mir::PlaceTy { ty, variant_index: Some(v) };
                }
                ProjectionElem::Index(l) => {
                    let (et, len) = self.elem_ty(ty);
                    let stride = self.layout(et).size.bytes() as u32;
                    projs.push(Proj::Index { local: l.as_u32(), stride, len });
                    pt = mir::PlaceTy::from_ty(et);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (et, len) = self.elem_ty(ty);
                    let stride = self.layout(et).size.bytes() as u32;
                    match (from_end, len) {
                        (false, _) => push_off(&mut projs, (offset * stride as u64) as i64),
                        (true, Some(n)) => push_off(&mut projs, ((n - offset) * stride as u64) as i64),
                        (true, None) => projs.push(Proj::ConstIdxEnd { offset, stride }),
                    }
                    pt = mir::PlaceTy::from_ty(et);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (et, len) = self.elem_ty(ty);
                    let stride = self.layout(et).size.bytes() as u32;
                    match len {
                        Some(n) => {
                            let to = if from_end { n - to } else { to };
                            push_off(&mut projs, (from * stride as u64) as i64);
                            pt = mir::PlaceTy::from_ty(Ty::new_array(tcx, et, to - from));
                        }
                        None => {
                            projs.push(Proj::SubsliceEnd { from, to, stride });
                            pt = mir::PlaceTy::from_ty(ty);
                        }
                    }
                }
                ProjectionElem::PhantomDeref => {
                    projs.push(Proj::Unsupported("phantom deref", std::marker::PhantomData));
                    pt = mir::PlaceTy::from_ty(ty);
                }
                ProjectionElem::OpaqueCast(t) => pt = mir::PlaceTy::from_ty(self.mono(inst, t)),
                ProjectionElem::UnwrapUnsafeBinder(t) => pt = mir::PlaceTy::from_ty(self.mono(inst, t)),
            }
        }
        let ty = self.norm(pt.ty);
        let un = self.is_unsized(ty);
        let ti = if un { TyI { size: 0, align: 1, kind: Kind::Agg, ty } } else { self.tyi(ty) };
        LPlace { local: p.local.as_u32(), projs, ti, unsized_: un }
    }
    fn norm(&self, ty: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(ty))
    }
    fn elem_ty(&self, ty: Ty<'tcx>) -> (Ty<'tcx>, Option<u64>) {
        match ty.kind() {
            ty::Array(t, n) => (*t, Some(n.try_to_target_usize(self.tcx).expect("array len"))),
            ty::Slice(t) => (*t, None),
            ty::Str => (self.tcx.types.u8, None),
            _ => panic!("elem_ty {ty:?}"),
        }
    }
    fn op(&self, inst: Instance<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> LOp<'tcx> {
        match o {
            Operand::Copy(p) => LOp::Copy(self.place(inst, body, p)),
            Operand::Move(p) => LOp::Move(self.place(inst, body, p)),
            Operand::Constant(c) => self.konst(inst, c),
            Operand::RuntimeChecks(rc) => {
                let b = matches!(rc, RuntimeChecks::OverflowChecks);
                LOp::Bool(b, self.tyi(self.tcx.types.bool))
            }
        }
    }
    fn konst(&self, inst: Instance<'tcx>, c: &ConstOperand<'tcx>) -> LOp<'tcx> {
        let k = self.mono(inst, c.const_);
        let ty = k.ty();
        let ti = self.tyi(ty);
        if ti.size == 0 {
            // still evaluate: post-monomorphisation assertions live in zero-sized constants
            return LOp::FnDef(ti);
        }
        match k.eval(self.tcx, self.env(), c.span) {
            Ok(v) => LOp::Const(v, ti),
            Err(e) => LOp::Bad(format!("constant {k:?}: {e:?}")),
        }
    }
    pub fn tag_write(&self, ty: Ty<'tcx>, v: VariantIdx) -> Option<(u32, u32, u128)> {
        let l = self.layout(ty);
        match &l.variants {
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                let size = tag.size(&self.tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let d = ty.discriminant_for_variant(self.tcx, v).unwrap().val;
                        Some((off, size, d & crate::term::mask(size as u16 * 8)))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if v == *untagged_variant {
                            None
                        } else {
                            let rel = (v.as_u32() - niche_variants.start.as_u32()) as u128;
                            let x = niche_start.wrapping_add(rel) & crate::term::mask(size as u16 * 8);
                            Some((off, size, x))
                        }
                    }
                }
            }
            _ => None,
        }
    }
    pub fn discr_read(&self, ty: Ty<'tcx>) -> DiscrR {
        let l = self.layout(ty);
        let dty = ty.discriminant_ty(self.tcx);
        let dsize = self.layout(dty).size.bytes() as u32;
        match &l.variants {
            Variants::Empty => DiscrR::Uninhabited,
            Variants::Single { index } => DiscrR::Const(
                ty.discriminant_for_variant(self.tcx, *index).map(|d| d.val).unwrap_or(index.as_u32() as u128),
            ),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes() as u32;
                let size = tag.size(&self.tcx).bytes() as u32;
                match tag_encoding {
                    TagEncoding::Direct => DiscrR::Direct { off, size, dsize, signed: dty.is_signed() },
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => DiscrR::Niche {
                        off,
                        size,
                        dsize,
                        untagged: untagged_variant.as_u32() as u128,
                        start: *niche_start,
                        vlo: niche_variants.start.as_u32() as u128,
                        vhi: niche_variants.last.as_u32() as u128,
                        ptr: matches!(tag.primitive(), Primitive::Pointer(_)),
                    },
                }
            }
        }
    }
    fn cast(&self, inst: Instance<'tcx>, kind: &CastKind, from: Ty<'tcx>, to: Ty<'tcx>) -> LCast<'tcx> {
        use ty::adjustment::PointerCoercion as PC;
        let _ = inst;
        match kind {
            CastKind::IntToInt => LCast::Int { from_signed: from.is_signed() },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                if self.is_fat_ptr(from) && !self.is_fat_ptr(to) {
                    LCast::FatToThin
                } else {
                    LCast::Same
                }
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => LCast::Same,
            CastKind::PointerExposeProvenance => LCast::PtrToInt,
            CastKind::PointerWithExposedProvenance => LCast::IntToPtr,
            CastKind::PointerCoercion(pc, _) => match pc {
                PC::MutToConstPointer | PC::ArrayToPointer | PC::UnsafeFnPointer => LCast::Same,
                PC::ReifyFnPointer(_) => match from.kind() {
                    ty::FnDef(d, args) => match self.resolve_fn(*d, args.no_bound_vars().unwrap()) {
                        Some(i) => LCast::ReifyFn(i),
                        None => LCast::Unsupported("reify".into()),
                    },
                    _ => LCast::Unsupported("reify".into()),
                },
                PC::ClosureFnPointer(_) => match from.kind() {
                    ty::Closure(d, args) => {
                        let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                        LCast::ReifyFn(i)
                    }
                    _ => LCast::Unsupported("closure fn".into()),
                },
                PC::Unsize => {
                    let (Some(a), Some(b)) = (self.pointee(from), self.pointee(to)) else {
                        return LCast::Unsupported(format!("unsize {from:?} -> {to:?}"));
                    };
                    if self.is_unsized(a) {
                        return LCast::Same; // already fat (upcast / same)
                    }
                    let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env());
                    match (a.kind(), b.kind()) {
                        (ty::Array(_, n), ty::Slice(_)) => {
                            LCast::UnsizeArr(n.try_to_target_usize(self.tcx).unwrap())
                        }
                        (_, ty::Dynamic(..)) => LCast::UnsizeDyn { src: a, dst: b },
                        _ => LCast::Unsupported(format!("unsize {a:?} -> {b:?}")),
                    }
                }
            },
            k => LCast::Unsupported(format!("{k:?}")),
        }
    }
    pub fn resolve_fn(&self, d: rustc_hir::def_id::DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        Instance::try_resolve(self.tcx, self.env(), d, args).ok().flatten()
    }
    fn rvalue(&self, inst: Instance<'tcx>, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> LRv<'tcx> {
        let op = |o: &Operand<'tcx>| self.op(inst, body, o);
        match rv {
            Rvalue::Use(o, _) => LRv::Use(op(o)),
            Rvalue::CopyForDeref(p) => LRv::Use(LOp::Copy(self.place(inst, body, p))),
            Rvalue::Reborrow(_, _, p) => LRv::Use(LOp::Copy(self.place(inst, body, p))),
            Rvalue::Repeat(o, n) => {
                let n = self.mono(inst, *n).try_to_target_usize(self.tcx).expect("repeat");
                let o = op(o);
                let ti = o.ti();
                match ti {
                    Some(ti) => LRv::Repeat(o, n, ti),
                    None => LRv::Unsupported("repeat".into()),
                }
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => LRv::Ref(self.place(inst, body, p)),
            Rvalue::ThreadLocalRef(_) => LRv::ThreadLocal,
            Rvalue::Cast(k, o, to) => {
                let from = self.mono(inst, o.ty(body, self.tcx));
                let to = self.mono(inst, *to);
                LRv::Cast(self.cast(inst, k, from, to), op(o))
            }
            Rvalue::BinaryOp(b, x) => {
                let lty = self.mono(inst, x.0.ty(body, self.tcx));
                let stride = if *b == BinOp::Offset {
                    let p = self.pointee(lty).unwrap();
                    if self.is_unsized(p) { 1 } else { self.layout(p).size.bytes() as u32 }
                } else {
                    lty.is_signed() as u32
                };
                LRv::Bin(*b, op(&x.0), op(&x.1), stride)
            }
            Rvalue::UnaryOp(u, o) => LRv::Un(*u, op(o)),
            Rvalue::Discriminant(p) => {
                let p = self.place(inst, body, p);
                let d = self.discr_read(p.ti.ty);
                LRv::Discr(p, d)
            }
            Rvalue::Aggregate(k, fields) => {
                let ty = self.mono(inst, rv.ty(body, self.tcx));
                match &**k {
                    AggregateKind::RawPtr(..) => {
                        let f: Vec<_> = fields.iter().collect();
                        let meta = op(f[1]);
                        if meta.ti().is_some_and(|t| t.size == 0) {
                            LRv::Use(op(f[0]))
                        } else {
                            LRv::FatPtr(op(f[0]), meta)
                        }
                    }
                    AggregateKind::Array(_) => {
                        let (et, _) = self.elem_ty(ty);
                        let s = self.layout(et).size.bytes() as u32;
                        LRv::Agg(fields.iter().enumerate().map(|(i, o)| (i as u32 * s, op(o))).collect(), None)
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) => {
                        let l = self.layout(ty);
                        LRv::Agg(
                            fields
                                .iter_enumerated()
                                .map(|(i, o)| (l.fields.offset(i.as_usize()).bytes() as u32, op(o)))
                                .collect(),
                            None,
                        )
                    }
                    AggregateKind::Adt(_, v, _, _, active) => {
                        let l0 = self.layout(ty);
                        let isenum = ty.is_enum();
                        let l = if isenum {
                            let cx = ty::layout::LayoutCx::new(self.tcx, self.env());
                            l0.for_variant(&cx, *v)
                        } else {
                            l0
                        };
                        let fs = match active {
                            Some(f) => vec![(l.fields.offset(f.as_usize()).bytes() as u32, op(&fields[rustc_abi::FieldIdx::from_usize(0)]))],
                            None => fields
                                .iter_enumerated()
                                .map(|(i, o)| (l.fields.offset(i.as_usize()).bytes() as u32, op(o)))
                                .collect(),
                        };
                        let tag = if isenum { self.tag_write(ty, *v) } else { None };
                        LRv::Agg(fs, tag)
                    }
                    k => LRv::Unsupported(format!("aggregate {k:?}")),
                }
            }
            r => LRv::Unsupported(format!("{r:?}")),
        }
    }

    pub fn body(&self, inst: Instance<'tcx>) -> Rc<LBody<'tcx>> {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        let locals: Vec<TyI> = body
            .local_decls
            .iter()
            .map(|d| {
                let ty = self.mono(inst, d.ty);
                if self.is_unsized(ty) {
                    TyI { size: 0, align: 1, kind: Kind::Agg, ty }
                } else {
                    self.tyi(ty)
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !data.is_cleanup {
                for s in &data.statements {
                    let l = match &s.kind {
                        StatementKind::Assign(x) => {
                            LSt::Assign(self.place(inst, body, &x.0), self.rvalue(inst, body, &x.1))
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(inst, body, place);
                            let t = self.tag_write(p.ti.ty, *variant_index);
                            LSt::SetDiscr(p, t)
                        }
                        StatementKind::StorageLive(l) => LSt::Live(l.as_u32()),
                        StatementKind::StorageDead(l) => LSt::Dead(l.as_u32()),
                        StatementKind::Intrinsic(i) => match &**i {
                            NonDivergingIntrinsic::Assume(_) => LSt::Nop,
                            NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                                let pty = self.mono(inst, c.src.ty(body, tcx));
                                let p = self.pointee(pty).unwrap();
                                let l = self.layout(p);
                                LSt::CopyNon {
                                    src: self.op(inst, body, &c.src),
                                    dst: self.op(inst, body, &c.dst),
                                    n: self.op(inst, body, &c.count),
                                    size: l.size.bytes() as u32,
                                    align: l.align.abi.bytes() as u32,
                                }
                            }
                        },
                        _ => LSt::Nop,
                    };
                    if !matches!(l, LSt::Nop) {
                        st.push((l, s.source_info.span));
                    }
                }
            }
            let t = data.terminator();
            let tm = if data.is_cleanup { LTm::Unreachable } else { self.term(inst, body, t) };
            blocks.push(LBlock { st, tm, span: t.source_info.span, cleanup: data.is_cleanup, loc: 0 });
        }
        let ipdom = ipdoms(&blocks);
        Rc::new(LBody {
            inst,
            locals,
            argc: body.arg_count,
            spread: body.spread_arg.map(|l| l.as_u32()),
            blocks,
            ipdom,
            span: body.span,
            name: tcx.def_path_str(inst.def_id()),
        })
    }
    fn term(&self, inst: Instance<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> LTm<'tcx> {
        match &t.kind {
            TerminatorKind::Goto { target, .. } => LTm::Goto(target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => LTm::Switch {
                op: self.op(inst, body, discr),
                targets: targets.iter().map(|(v, b)| (v, b.as_u32())).collect(),
                otherwise: targets.otherwise().as_u32(),
            },
            TerminatorKind::Return => LTm::Return,
            TerminatorKind::Unreachable | TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                LTm::Unreachable
            }
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(inst, body, place);
                let i = Instance::resolve_drop_glue(self.tcx, p.ti.ty);
                LTm::Drop { place: p, inst: i, target: target.as_u32() }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.mono(inst, func.ty(body, self.tcx));
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => match self.resolve_fn(*d, a.no_bound_vars().unwrap()) {
                        Some(i) => Callee::Inst(i),
                        None => Callee::Bad(format!("unresolved {fty:?}")),
                    },
                    ty::FnPtr(..) => Callee::Ptr(self.op(inst, body, func)),
                    _ => Callee::Bad(format!("call of {fty:?}")),
                };
                LTm::Call {
                    callee,
                    args: args.iter().map(|a| self.op(inst, body, &a.node)).collect(),
                    dest: self.place(inst, body, destination),
                    target: target.map(|t| t.as_u32()),
                    untuple: fty.fn_sig(self.tcx).abi() == rustc_abi::ExternAbi::RustCall,
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (m, ovf, idx) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => (
                        "index out of bounds".to_string(),
                        false,
                        Some((self.op(inst, body, len), self.op(inst, body, index))),
                    ),
                    AssertKind::Overflow(op, ..) => (format!("arithmetic overflow in {op:?}"), true, None),
                    AssertKind::OverflowNeg(_) => ("negation overflow".to_string(), true, None),
                    AssertKind::DivisionByZero(_) => ("division by zero".to_string(), false, None),
                    AssertKind::RemainderByZero(_) => ("remainder by zero".to_string(), false, None),
                    _ => ("assertion".to_string(), false, None),
                };
                LTm::Assert {
                    cond: self.op(inst, body, cond),
                    expected: *expected,
                    target: target.as_u32(),
                    msg: m,
                    overflow: ovf,
                    idx,
                }
            }
            TerminatorKind::FalseEdge { real_target, .. } => LTm::Goto(real_target.as_u32()),
            TerminatorKind::FalseUnwind { real_target, .. } => LTm::Goto(real_target.as_u32()),
            k => LTm::Unsupported(format!("{k:?}")),
        }
    }
    pub fn is_array_layout(&self, ty: Ty<'tcx>) -> bool {
        matches!(self.layout(ty).fields, FieldsShape::Array { .. })
    }
}

pub fn succs(t: &LTm<'_>) -> Vec<u32> {
    match t {
        LTm::Goto(b) => vec![*b],
        LTm::Switch { targets, otherwise, .. } => {
            let mut v: Vec<u32> = targets.iter().map(|x| x.1).collect();
            v.push(*otherwise);
            v
        }
        LTm::Drop { target, .. } => vec![*target],
        LTm::Call { target, .. } => target.iter().copied().collect(),
        LTm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn ipdoms(blocks: &[LBlock<'_>]) -> Vec<u32> {
    // post-dominators by reverse CFG; node n = virtual exit. Diverging blocks have no edge to exit.
    let n = blocks.len();
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1]; // reverse graph successors
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        if b.cleanup {
            continue;
        }
        let mut s: Vec<usize> = succs(&b.tm).into_iter().map(|x| x as usize).collect();
        if matches!(b.tm, LTm::Return) {
            s.push(n);
        }
        for &x in &s {
            preds[x].push(i);
        }
        succ[i] = s;
    }
    // postorder on reverse graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((x, k)) = stack.pop() {
        if k < preds[x].len() {
            stack.push((x, k + 1));
            let y = preds[x][k];
            if !seen[y] {
                seen[y] = true;
                stack.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            if x == n {
                continue;
            }
            let mut new = usize::MAX;
            for &s in &succ[x] {
                if num[s] == usize::MAX || idom[s] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    s
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[a] < num[b] {
                            a = idom[a];
                        }
                        while num[b] < num[a] {
                            b = idom[b];
                        }
                    }
                    a
                };
            }
            if new != usize::MAX && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|i| {
            if idom[i] == usize::MAX {
                NOEXIT
            } else if idom[i] == n {
                EXIT
            } else {
                idom[i] as u32
            }
        })
        .collect()
}

/// Locals a body may still read at the entry of each block (bit sets); a local whose address is
/// taken, or that a projection other than a plain field reaches by reference, always counts.
pub fn live_in(body: &LBody<'_>) -> Vec<Vec<u64>> {
    let w = body.locals.len().div_ceil(64);
    let mut borrowed = vec![0u64; w];
    let set = |s: &mut Vec<u64>, l: u32| s[l as usize / 64] |= 1 << (l % 64);
    let clr = |s: &mut Vec<u64>, l: u32| s[l as usize / 64] &= !(1 << (l % 64));
    fn place(p: &LPlace<'_>, f: &mut dyn FnMut(u32)) {
        f(p.local);
        for q in &p.projs {
            if let Proj::Index { local, .. } = q {
                f(*local);
            }
        }
    }
    fn op(o: &LOp<'_>, f: &mut dyn FnMut(u32)) {
        if let LOp::Copy(p) | LOp::Move(p) = o {
            place(p, f);
        }
    }
    fn rv(r: &LRv<'_>, f: &mut dyn FnMut(u32)) {
        match r {
            LRv::Use(o) | LRv::Repeat(o, ..) | LRv::Cast(_, o) | LRv::Un(_, o) => op(o, f),
            LRv::Ref(p) | LRv::Discr(p, _) => place(p, f),
            LRv::Bin(_, a, b, _) | LRv::FatPtr(a, b) => {
                op(a, f);
                op(b, f);
            }
            LRv::Agg(v, _) => v.iter().for_each(|(_, o)| op(o, f)),
            LRv::ThreadLocal | LRv::Unsupported(_) => {}
        }
    }
    for b in &body.blocks {
        for (s, _) in &b.st {
            if let LSt::Assign(_, LRv::Ref(p)) = s {
                if !matches!(p.projs.first(), Some(Proj::Deref { .. })) {
                    set(&mut borrowed, p.local);
                }
            }
        }
        if let LTm::Drop { place, .. } = &b.tm {
            set(&mut borrowed, place.local);
        }
    }
    let n = body.blocks.len();
    let mut live = vec![borrowed.clone(); n];
    loop {
        let mut changed = false;
        for i in (0..n).rev() {
            let b = &body.blocks[i];
            let mut s = borrowed.clone();
            let join = |s: &mut Vec<u64>, t: u32| s.iter_mut().zip(&live[t as usize]).for_each(|(a, b)| *a |= b);
            match &b.tm {
                LTm::Goto(t) => join(&mut s, *t),
                LTm::Switch { op: o, targets, otherwise } => {
                    targets.iter().for_each(|t| join(&mut s, t.1));
                    join(&mut s, *otherwise);
                    op(o, &mut |l| set(&mut s, l));
                }
                LTm::Return => set(&mut s, 0),
                LTm::Unreachable | LTm::Unsupported(_) => {}
                LTm::Drop { place: p, target, .. } => {
                    join(&mut s, *target);
                    place(p, &mut |l| set(&mut s, l));
                }
                LTm::Call { callee, args, dest, target, .. } => {
                    if let Some(t) = target {
                        join(&mut s, *t);
                    }
                    if dest.projs.is_empty() {
                        clr(&mut s, dest.local);
                    } else {
                        place(dest, &mut |l| set(&mut s, l));
                    }
                    if let Callee::Ptr(o) = callee {
                        op(o, &mut |l| set(&mut s, l));
                    }
                    args.iter().for_each(|o| op(o, &mut |l| set(&mut s, l)));
                }
                LTm::Assert { cond, target, idx, .. } => {
                    join(&mut s, *target);
                    op(cond, &mut |l| set(&mut s, l));
                    if let Some((a, b)) = idx {
                        op(a, &mut |l| set(&mut s, l));
                        op(b, &mut |l| set(&mut s, l));
                    }
                }
            }
            for (x, _) in b.st.iter().rev() {
                match x {
                    LSt::Assign(p, r) => {
                        if p.projs.is_empty() {
                            clr(&mut s, p.local);
                        } else {
                            place(p, &mut |l| set(&mut s, l));
                        }
                        rv(r, &mut |l| set(&mut s, l));
                    }
                    LSt::SetDiscr(p, _) => place(p, &mut |l| set(&mut s, l)),
                    LSt::Live(l) | LSt::Dead(l) => clr(&mut s, *l),
                    LSt::CopyNon { src, dst, n, .. } => [src, dst, n].into_iter().for_each(|o| op(o, &mut |l| set(&mut s, l))),
                    LSt::Nop => {}
                }
            }
            s.iter_mut().zip(&borrowed).for_each(|(a, b)| *a |= b);
            if s != live[i] {
                live[i] = s;
                changed = true;
            }
        }
        if !changed {
            return live;
        }
    }
}
