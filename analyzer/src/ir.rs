//! Lowering of monomorphic MIR (rustc_public) into the form the abstract
//! interpreter walks: constants decoded, callees resolved, types attached.
use crate::bdd::*;
use crate::int::*;
use crate::val::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    Field(u32),
    /// field of a union, or of an unsized newtype seen through a fat pointer
    UField,
    Index(usize),
    Const(u64, bool),
    Sub(u64, u64, bool),
    Down(u32),
}
#[derive(Clone)]
pub struct Pl {
    pub l: usize,
    pub p: Vec<Pj>,
}
#[derive(Clone)]
pub enum Op {
    Copy(Pl),
    Move(Pl),
    Const(Val),
    Bad(String),
}
#[derive(Clone)]
pub enum Rv {
    /// comparison (or arithmetic) of floating-point numbers
    FBin(BinOp, Op, Op),
    FNeg(Op),
    Use(Op),
    Ref(Pl),
    Agg(Vec<Op>),
    EnumAgg(usize, Vec<Op>),
    UnionAgg(Op),
    RawPtr(Op, Op),
    Bin(BinOp, Op, Op),
    /// the flag says that the overflow bit is asserted false right after
    Checked(BinOp, Op, Op, bool),
    Un(UnOp, Op),
    Cast(CastKind, Op, Ty, Ty),
    Disc(Pl, Ty),
    Len(Pl),
    Repeat(Op, u64),
    Bad(String),
}
pub enum St {
    Assign(Pl, Rv),
    SetDisc(Pl, usize),
    Dead(usize),
    CopyNon(Op, Op, Op),
    Nop,
}
pub enum Callee {
    Inst(Rc<Call>),
    Dyn(Op),
}
pub struct Call {
    pub inst: Instance,
    pub name: String,
    pub closure: bool,
    pub intrinsic: Option<String>,
    pub args: GenericArgs,
    pub has_body: bool,
    pub ret: Ty,
    pub ctor: Option<(Option<usize>, usize)>,
}
pub enum Tm {
    Goto(usize),
    Switch(Op, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Call { f: Callee, a: Vec<Op>, d: Pl, t: Option<usize> },
    Assert { c: Op, exp: bool, msg: String, t: usize },
    Bad(String),
}
pub struct Blk {
    pub st: Vec<St>,
    pub tm: Tm,
    pub span: Span,
    pub spans: Vec<Span>,
}
pub struct Fun {
    pub inst: Instance,
    pub name: String,
    pub repo: bool,
    pub nloc: usize,
    pub nargs: usize,
    pub spread: bool,
    pub closure: bool,
    pub blocks: Vec<Blk>,
    pub rpo: Vec<usize>,
    pub live: Vec<Vec<u64>>,
    pub span: Span,
    pub tys: Vec<Ty>,
    pub id: usize,
}

pub struct Statics {
    pub vals: Vec<Val>,
    by_alloc: HashMap<(usize, String), u32>,
    by_bytes: HashMap<Vec<u8>, u32>,
}
thread_local! {
    pub static STATICS: RefCell<Statics> = RefCell::new(Statics { vals: vec![], by_alloc: HashMap::new(), by_bytes: HashMap::new() });
}

pub fn is_repo_def(d: &impl CrateDef) -> bool {
    d.krate().name == "libmbus"
}

pub fn int_ty(ty: Ty) -> Option<(u16, bool)> {
    Some(match ty.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => (1, false),
            RigidTy::Char => (32, false),
            RigidTy::Int(i) => ((i.num_bytes() * 8) as u16, true),
            RigidTy::Uint(i) => ((i.num_bytes() * 8) as u16, false),
            RigidTy::Float(FloatTy::F32) => (32, false),
            RigidTy::Float(FloatTy::F64) => (64, false),
            RigidTy::Pat(t, _) => return int_ty(t),
            _ => return None,
        },
        _ => return None,
    })
}

fn size_bytes(ty: Ty) -> Option<usize> {
    Some(ty.layout().ok()?.shape().size.bytes())
}

pub fn intern_bytes(b: &[u8]) -> u32 {
    STATICS.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(&i) = s.by_bytes.get(b) {
            return i;
        }
        let v = Val::agg(b.iter().map(|x| Val::Int(Int::c(*x as u128, 8, false))).collect());
        let i = s.vals.len() as u32;
        s.vals.push(v);
        s.by_bytes.insert(b.to_vec(), i);
        i
    })
}
pub fn str_ptr(b: &[u8]) -> Ptr {
    Ptr { base: Base::Static(intern_bytes(b)), path: Rc::new([]), idx: Some(0), meta: Meta::Len(Int::usize(b.len() as u64)) }
}
pub fn static_val(i: u32) -> Val {
    STATICS.with(|s| s.borrow().vals[i as usize].clone())
}
pub fn static_bytes(i: u32) -> Option<Vec<u8>> {
    match static_val(i) {
        Val::Agg(a) => a.iter().map(|x| x.int().and_then(|i| i.as_const()).map(|v| v as u8)).collect(),
        _ => None,
    }
}

fn pointee(ty: Ty) -> Option<Ty> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Pat(t, _)) => pointee(t),
        _ => None,
    }
}

fn is_unsized_tail(ty: Ty) -> bool {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..)) => true,
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
            let v = d.variants()[0];
            v.fields().last().map(|f| is_unsized_tail(f.ty_with_args(&a))).unwrap_or(false)
        }
        _ => false,
    }
}

/// read `n` bytes as little endian
fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
    let mut v = 0u128;
    for i in 0..n {
        v |= (a.bytes.get(off + i).copied()??  as u128) << (8 * i);
    }
    Some(v)
}
fn prov(a: &Allocation, off: usize) -> Option<AllocId> {
    a.provenance.ptrs.iter().find(|p| p.0 == off).map(|p| p.1 .0)
}

fn deref_alloc(id: AllocId, pt: Ty, off: usize, len: Option<u64>) -> Option<Ptr> {
    let key = (rustc_public_bridge::IndexedVal::to_index(&id), format!("{pt:?}/{len:?}"));
    let meta = match len {
        Some(n) => Meta::Len(Int::usize(n)),
        None => Meta::No,
    };
    let elem = match pt.kind() {
        TyKind::RigidTy(RigidTy::Slice(t)) => Some(t),
        TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)),
        TyKind::RigidTy(RigidTy::Adt(..)) if len.is_some() => Some(Ty::unsigned_ty(UintTy::U8)),
        _ => None,
    };
    let alloc = match GlobalAlloc::from(id) {
        GlobalAlloc::Memory(a) => a,
        // a static that can change after start-up has no known contents
        GlobalAlloc::Static(s) if crate::graph::mutable_inside(s.ty(), true, &mut HashSet::new()) => return None,
        GlobalAlloc::Static(s) => s.eval_initializer().ok()?,
        _ => return None,
    };
    if let Some(et) = elem {
        let es = size_bytes(et)?;
        let n = len? as usize;
        if es == 1 && int_ty(et).is_some() {
            let b: Option<Vec<u8>> = (0..n).map(|i| rd(&alloc, off + i, 1).map(|x| x as u8)).collect();
            let i = intern_bytes(&b?);
            return Some(Ptr { base: Base::Static(i), path: Rc::new([]), idx: Some(0), meta });
        }
        let known = STATICS.with(|s| s.borrow().by_alloc.get(&key).copied());
        let i = match known {
            Some(i) => i,
            None => {
                let v: Option<Vec<Val>> = (0..n).map(|i| alloc_val(&alloc, off + i * es, et)).collect();
                let v = Val::agg(v?);
                STATICS.with(|s| {
                    let mut s = s.borrow_mut();
                    let i = s.vals.len() as u32;
                    s.vals.push(v);
                    s.by_alloc.insert(key, i);
                    i
                })
            }
        };
        return Some(Ptr { base: Base::Static(i), path: Rc::new([]), idx: Some(0), meta });
    }
    let known = STATICS.with(|s| s.borrow().by_alloc.get(&key).copied());
    let i = match known {
        Some(i) => i,
        None => {
            let v = alloc_val(&alloc, off, pt)?;
            STATICS.with(|s| {
                let mut s = s.borrow_mut();
                let i = s.vals.len() as u32;
                s.vals.push(v);
                s.by_alloc.insert(key, i);
                i
            })
        }
    };
    Some(Ptr { base: Base::Static(i), path: Rc::new([]), idx: None, meta })
}

fn scalar_len(s: &Scalar) -> Option<usize> {
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    Some(match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
        _ => return None,
    })
}

pub fn alloc_val(a: &Allocation, off: usize, ty: Ty) -> Option<Val> {
    if let Some((w, s)) = int_ty(ty) {
        let n = (w as usize + 7) / 8;
        return Some(Val::Int(Int::c(rd(a, off, n)?, w, s)));
    }
    let TyKind::RigidTy(r) = ty.kind() else { return None };
    match r {
        RigidTy::Pat(t, _) => alloc_val(a, off, t),
        RigidTy::Ref(..) | RigidTy::RawPtr(..) => {
            let pt = pointee(ty)?;
            let fat = is_unsized_tail(pt);
            let len = if fat { Some(rd(a, off + 8, 8)? as u64) } else { None };
            match prov(a, off) {
                // `static mut` is reached through a raw pointer constant
                Some(id) if matches!(ty.kind(), TyKind::RigidTy(RigidTy::RawPtr(..))) && matches!(GlobalAlloc::from(id), GlobalAlloc::Static(_)) => None,
                Some(id) => {
                    let o = rd(a, off, 8)? as usize;
                    deref_alloc(id, pt, o, len).map(Val::ptr)
                }
                None => Some(Val::ptr(Ptr {
                    base: Base::Dangling(rd(a, off, 8)? as u64),
                    path: Rc::new([]),
                    idx: Some(0),
                    meta: match len {
                        Some(n) => Meta::Len(Int::usize(n)),
                        None => Meta::No,
                    },
                })),
            }
        }
        RigidTy::FnPtr(_) => match GlobalAlloc::from(prov(a, off)?) {
            GlobalAlloc::Function(i) => Some(Val::Fn(through_shim(i))),
            _ => None,
        },
        RigidTy::FnDef(..) | RigidTy::Never => Some(Val::unit()),
        RigidTy::Tuple(ts) => {
            let sh = ty.layout().ok()?.shape();
            let FieldsShape::Arbitrary { offsets } = &sh.fields else { return if ts.is_empty() { Some(Val::unit()) } else { None } };
            let v: Option<Vec<Val>> = ts.iter().zip(offsets).map(|(t, o)| alloc_val(a, off + o.bytes(), *t)).collect();
            Some(Val::agg(v?))
        }
        RigidTy::Array(t, n) => {
            let es = size_bytes(t)?;
            let v: Option<Vec<Val>> = (0..n.eval_target_usize().ok()? as usize).map(|i| alloc_val(a, off + i * es, t)).collect();
            Some(Val::agg(v?))
        }
        RigidTy::Closure(_, args) => {
            let sh = ty.layout().ok()?.shape();
            if sh.size.bytes() == 0 {
                // zero-sized captures only
                let n = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.len(),
                        _ => 0,
                    },
                    _ => 0,
                };
                return Some(Val::agg(vec![Val::unit(); n]));
            }
            None
        }
        RigidTy::Adt(d, args) => {
            let sh = ty.layout().ok()?.shape();
            match d.kind() {
                AdtKind::Struct => {
                    let v = d.variants()[0];
                    let fs = v.fields();
                    if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                        let v: Option<Vec<Val>> = fs.iter().zip(offsets).map(|(f, o)| alloc_val(a, off + o.bytes(), f.ty_with_args(&args))).collect();
                        let v = v?;
                        if is_vecish(&d) {
                            return Some(Val::Vec(Rc::new(vec![])));
                        }
                        return Some(Val::agg(v));
                    }
                    if fs.is_empty() {
                        return Some(Val::unit());
                    }
                    None
                }
                AdtKind::Union => {
                    // MaybeUninit: the value, or nothing yet
                    let fs = d.variants()[0].fields();
                    let n = sh.size.bytes();
                    if (0..n).all(|i| a.bytes.get(off + i).copied().flatten().is_none()) {
                        return Some(Val::Undef);
                    }
                    let f = fs.iter().find(|f| size_bytes(f.ty_with_args(&args)) == Some(n))?;
                    alloc_val(a, off, f.ty_with_args(&args)).map(|v| Val::agg(vec![v]))
                }
                AdtKind::Enum => {
                    let vs = d.variants();
                    let fields_at = |idx: usize, offs: &[rustc_public::target::MachineSize]| -> Option<Val> {
                        let fs = vs[idx].fields();
                        let v: Option<Vec<Val>> = fs.iter().zip(offs).map(|(f, o)| alloc_val(a, off + o.bytes(), f.ty_with_args(&args))).collect();
                        Some(Val::variant(idx, v?))
                    };
                    match &sh.variants {
                        VariantsShape::Empty => None,
                        VariantsShape::Single { index } => {
                            let FieldsShape::Arbitrary { offsets } = &sh.fields else { return Some(Val::variant(vi(*index), vec![])) };
                            fields_at(vi(*index), offsets)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let FieldsShape::Arbitrary { offsets } = &sh.fields else { return None };
                            let toff = offsets[*tag_field].bytes();
                            let tl = scalar_len(tag)?;
                            let has_prov = prov(a, off + toff).is_some();
                            let tv = rd(a, off + toff, tl)?;
                            let idx = match tag_encoding {
                                TagEncoding::Direct => (0..vs.len()).find(|i| {
                                    let dv = d.discriminant_for_variant(vs[*i].idx()).val;
                                    dv & mask((tl * 8) as u16) == tv
                                })?,
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_prov {
                                        vi(*untagged_variant)
                                    } else {
                                        let rel = tv.wrapping_sub(*niche_start) & mask((tl * 8) as u16);
                                        let n0 = vi(*niche_variants.start());
                                        let n1 = vi(*niche_variants.end());
                                        if rel <= (n1 - n0) as u128 {
                                            n0 + rel as usize
                                        } else {
                                            vi(*untagged_variant)
                                        }
                                    }
                                }
                            };
                            fields_at(idx, &variants[idx].offsets)
                        }
                    }
                }
            }
        }
        _ => None,
    }
}

pub fn vi(v: VariantIdx) -> usize {
    rustc_public_bridge::IndexedVal::to_index(&v)
}

pub fn adt_name(d: &AdtDef) -> String {
    d.name().to_string()
}
pub fn is_vecish(d: &AdtDef) -> bool {
    let n = adt_name(d);
    n == "std::vec::Vec" || n == "alloc::vec::Vec"
}

fn zst(ty: Ty) -> Option<Val> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::FnDef(..)) => Some(Val::unit()),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().map(|t| zst(*t)).collect::<Option<Vec<_>>>().map(Val::agg),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => {
            d.variants()[0].fields().iter().map(|f| zst(f.ty_with_args(&a))).collect::<Option<Vec<_>>>().map(Val::agg)
        }
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum && d.num_variants() == 1 => Some(Val::variant(0, vec![])),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Enum => {
            // e.g. Option<Infallible>: one possible variant, nothing stored
            let sh = ty.layout().ok()?.shape();
            if sh.size.bytes() != 0 {
                return None;
            }
            match sh.variants {
                VariantsShape::Single { index } => {
                    let fs = d.variants()[vi(index)].fields();
                    let v: Option<Vec<Val>> = fs.iter().map(|f| zst(f.ty_with_args(&a))).collect();
                    Some(Val::variant(vi(index), v?))
                }
                _ => None,
            }
        }
        TyKind::RigidTy(RigidTy::Closure(_, args)) => match args.0.last() {
            Some(GenericArgKind::Type(t)) => zst(*t),
            _ => None,
        },
        TyKind::RigidTy(RigidTy::Array(_, n)) if n.eval_target_usize().ok() == Some(0) => Some(Val::agg(vec![])),
        _ => None,
    }
}

fn const_val(c: &MirConst) -> Result<Val, String> {
    let ty = c.ty();
    match c.kind() {
        ConstantKind::ZeroSized => zst(ty).ok_or_else(|| format!("zst const {ty:?}")),
        ConstantKind::Allocated(a) => {
            if let Some(v) = zst(ty) {
                return Ok(v);
            }
            alloc_val(a, 0, ty).ok_or_else(|| format!("const of type {:?}", ty.kind()))
        }
        ConstantKind::Ty(t) => match t.kind() {
            TyConstKind::Value(ty, a) => alloc_val(a, 0, *ty).ok_or_else(|| "ty const".into()),
            TyConstKind::ZSTValue(t) => zst(*t).ok_or_else(|| "zst".into()),
            k => Err(format!("ty const {k:?}")),
        },
        k => Err(format!("const {k:?}")),
    }
}

struct Lw<'a> {
    body: &'a Body,
    asserted: bool,
}
impl Lw<'_> {
    fn pl(&self, p: &Place) -> Pl {
        let mut ty = self.body.locals()[p.local].ty;
        let mut out = vec![];
        for e in &p.projection {
            let o = match e {
                ProjectionElem::Deref => Pj::Deref,
                ProjectionElem::Field(i, _) => {
                    let un = match ty.kind() {
                        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Union || (d.kind() == AdtKind::Struct && is_unsized_tail(ty)),
                        _ => false,
                    };
                    if un {
                        Pj::UField
                    } else {
                        Pj::Field(*i as u32)
                    }
                }
                ProjectionElem::Index(l) => Pj::Index(*l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => Pj::Const(*offset, *from_end),
                ProjectionElem::Subslice { from, to, from_end } => Pj::Sub(*from, *to, *from_end),
                ProjectionElem::Downcast(v) => Pj::Down(vi(*v) as u32),
                ProjectionElem::OpaqueCast(_) => {
                    continue;
                }
            };
            if let Ok(t) = e.ty(ty) {
                ty = t;
            }
            out.push(o);
        }
        Pl { l: p.local, p: out }
    }
    fn op(&self, o: &Operand) -> Op {
        match o {
            Operand::Copy(p) => Op::Copy(self.pl(p)),
            Operand::Move(p) => Op::Move(self.pl(p)),
            Operand::Constant(c) => match const_val(&c.const_) {
                Ok(v) => Op::Const(v),
                Err(e) => Op::Bad(e),
            },
            Operand::RuntimeChecks(r) => Op::Const(Val::bool(if matches!(r, RuntimeChecks::OverflowChecks) { T } else { F })),
        }
    }
    fn float(&self, o: &Operand) -> bool {
        matches!(o.ty(self.body.locals()).map(|t| t.kind()), Ok(TyKind::RigidTy(RigidTy::Float(_))))
    }
    fn rv(&self, r: &Rvalue) -> Rv {
        let locals = self.body.locals();
        match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(o)),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => Rv::Ref(self.pl(p)),
            Rvalue::CopyForDeref(p) => Rv::Use(Op::Copy(self.pl(p))),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<Op> = ops.iter().map(|o| self.op(o)).collect();
                match k {
                    AggregateKind::Adt(d, v, _, _, active) => match d.kind() {
                        AdtKind::Enum => Rv::EnumAgg(vi(*v), os),
                        AdtKind::Union => {
                            let _ = active;
                            Rv::UnionAgg(os.into_iter().next().unwrap_or(Op::Const(Val::unit())))
                        }
                        AdtKind::Struct => Rv::Agg(os),
                    },
                    AggregateKind::RawPtr(..) => {
                        let mut it = os.into_iter();
                        let a = it.next().unwrap();
                        let b = it.next().unwrap();
                        Rv::RawPtr(a, b)
                    }
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Agg(os),
                    _ => Rv::Bad(format!("aggregate {k:?}")),
                }
            }
            Rvalue::BinaryOp(b, x, y) if self.float(x) => Rv::FBin(*b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(_, x) if self.float(x) => Rv::FNeg(self.op(x)),
            Rvalue::BinaryOp(b, x, y) => Rv::Bin(*b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => Rv::Checked(*b, self.op(x), self.op(y), self.asserted),
            Rvalue::UnaryOp(u, x) => Rv::Un(*u, self.op(x)),
            Rvalue::Cast(k, o, t) => match o.ty(locals) {
                Ok(f) => Rv::Cast(k.clone(), self.op(o), f, *t),
                Err(e) => Rv::Bad(format!("cast {e:?}")),
            },
            Rvalue::Discriminant(p) => match p.ty(locals) {
                Ok(t) => Rv::Disc(self.pl(p), t),
                Err(e) => Rv::Bad(format!("disc {e:?}")),
            },
            Rvalue::Len(p) => Rv::Len(self.pl(p)),
            Rvalue::Repeat(o, n) => match n.eval_target_usize() {
                Ok(n) => Rv::Repeat(self.op(o), n),
                Err(_) => Rv::Bad("repeat".into()),
            },
            Rvalue::ThreadLocalRef(_) => Rv::Bad("thread local".into()),
        }
    }
}

/// the callee description of an instance
pub fn call_info(inst: Instance) -> Rc<Call> {
    let name = inst.def.name().to_string();
    let ty = inst.ty();
    let kind = ty.kind();
    let closure = matches!(kind, TyKind::RigidTy(RigidTy::Closure(..)));
    let args = inst.args();
    let ret = match kind.fn_sig() {
        Some(s) => s.skip_binder().output(),
        None => Ty::new_tuple(&[]),
    };
    let intrinsic = if matches!(inst.kind, InstanceKind::Intrinsic) { inst.intrinsic_name().map(|s| s.to_string()) } else { None };
    let has_body = inst.has_body();
    // tuple struct / variant constructors used as functions have no body
    let mut ctor = None;
    if !has_body && matches!(inst.kind, InstanceKind::Item) {
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ret.kind() {
            let last = name.rsplit("::").next().unwrap_or("").to_string();
            let nargs = kind.fn_sig().map(|s| s.skip_binder().inputs().len()).unwrap_or(0);
            if d.kind() == AdtKind::Enum {
                for (i, v) in d.variants_iter().enumerate() {
                    let vn = v.name().to_string();
                    let vlast = vn.rsplit("::").next().unwrap_or("").to_string();
                    if vlast == last && v.fields().len() == nargs {
                        ctor = Some((Some(i), nargs));
                    }
                }
            } else if d.kind() == AdtKind::Struct {
                let base = adt_name(&d).rsplit("::").next().unwrap_or("").to_string();
                if base == last && d.variants()[0].fields().len() == nargs {
                    ctor = Some((None, nargs));
                }
            }
        }
    }
    Rc::new(Call { inst, name, closure, intrinsic, args, has_body, ret, ctor })
}

pub fn lower(inst: Instance, id: usize) -> Result<Fun, String> {
    let body = inst.body().ok_or_else(|| format!("no body for {}", inst.name()))?;
    if let Ok(d) = std::env::var("MBA_DUMP") {
        if inst.def.name().to_string().contains(&d) {
            let mut o = vec![];
            let _ = body.dump(&mut o, &inst.def.name().to_string());
            println!("{}", String::from_utf8_lossy(&o));
        }
    }
    let mut lw = Lw { body: &body, asserted: false };
    let mut blocks = vec![];
    for bb in &body.blocks {
        let mut st = vec![];
        let mut spans = vec![];
        lw.asserted = matches!(&bb.terminator.kind, TerminatorKind::Assert { msg: AssertMessage::Overflow(..), .. });
        for s in &bb.statements {
            let n = match &s.kind {
                StatementKind::Assign(p, r) => St::Assign(lw.pl(p), lw.rv(r)),
                StatementKind::SetDiscriminant { place, variant_index } => St::SetDisc(lw.pl(place), vi(*variant_index)),
                StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => St::Dead(*l),
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => St::CopyNon(lw.op(&c.src), lw.op(&c.dst), lw.op(&c.count)),
                _ => continue,
            };
            st.push(n);
            spans.push(s.source_info.span);
        }
        let tm = match &bb.terminator.kind {
            TerminatorKind::Goto { target } => Tm::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => Tm::Switch(lw.op(discr), targets.branches().collect(), targets.otherwise()),
            TerminatorKind::Return => Tm::Return,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Drop { target, .. } => Tm::Goto(*target),
            TerminatorKind::Resume | TerminatorKind::Abort => Tm::Bad("unwind".into()),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                    m => m.description().map(|s| s.to_string()).unwrap_or_else(|_| "assertion".into()),
                };
                Tm::Assert { c: lw.op(cond), exp: *expected, msg: m, t: *target }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func.ty(body.locals()).map(|t| t.kind()) {
                    Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => match Instance::resolve(d, &a) {
                        Ok(i) => Ok(Callee::Inst(call_info(i))),
                        Err(e) => Err(format!("resolve: {e:?}")),
                    },
                    _ => Ok(Callee::Dyn(lw.op(func))),
                };
                match f {
                    Ok(f) => Tm::Call { f, a: args.iter().map(|o| lw.op(o)).collect(), d: lw.pl(destination), t: *target },
                    Err(e) => Tm::Bad(e),
                }
            }
            TerminatorKind::InlineAsm { .. } => Tm::Bad("inline asm".into()),
        };
        blocks.push(Blk { st, tm, span: bb.terminator.source_info.span, spans });
    }
    let nloc = body.locals().len();
    let nargs = body.arg_locals().len();
    let tys = body.locals().iter().map(|l| l.ty).collect();
    let mut f = Fun {
        inst,
        name: inst.def.name().to_string(),
        repo: is_repo_def(&inst.def),
        nloc,
        nargs,
        spread: body.spread_arg().is_some(),
        closure: matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))),
        blocks,
        rpo: vec![],
        live: vec![],
        span: inst.def.span(),
        tys,
        id,
    };
    f.rpo = rpo(&f);
    f.live = liveness(&f);
    Ok(f)
}

pub fn succ(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(t) => vec![*t],
        Tm::Switch(_, b, o) => b.iter().map(|x| x.1).chain([*o]).collect(),
        Tm::Call { t, .. } => t.iter().copied().collect(),
        Tm::Assert { t, .. } => vec![*t],
        _ => vec![],
    }
}

fn rpo(f: &Fun) -> Vec<usize> {
    let n = f.blocks.len();
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st = vec![(0usize, 0usize)];
    seen[0] = true;
    let ss: Vec<Vec<usize>> = f.blocks.iter().map(|b| succ(&b.tm)).collect();
    while let Some((b, i)) = st.pop() {
        if i < ss[b].len() {
            st.push((b, i + 1));
            let t = ss[b][i];
            if !seen[t] {
                seen[t] = true;
                st.push((t, 0));
            }
        } else {
            post.push(b);
        }
    }
    let mut r = vec![usize::MAX; n];
    for (i, b) in post.iter().rev().enumerate() {
        r[*b] = i;
    }
    r
}

fn pl_uses(p: &Pl, gen: &mut dyn FnMut(usize)) {
    gen(p.l);
    for e in &p.p {
        if let Pj::Index(l) = e {
            gen(*l)
        }
    }
}
fn op_uses(o: &Op, gen: &mut dyn FnMut(usize)) {
    match o {
        Op::Copy(p) | Op::Move(p) => pl_uses(p, gen),
        _ => (),
    }
}
fn rv_uses(r: &Rv, gen: &mut dyn FnMut(usize)) {
    match r {
        Rv::Use(o) | Rv::FNeg(o) | Rv::UnionAgg(o) | Rv::Un(_, o) | Rv::Cast(_, o, _, _) | Rv::Repeat(o, _) => op_uses(o, gen),
        Rv::Ref(p) | Rv::Disc(p, _) | Rv::Len(p) => pl_uses(p, gen),
        Rv::Agg(v) | Rv::EnumAgg(_, v) => v.iter().for_each(|o| op_uses(o, gen)),
        Rv::RawPtr(a, b) | Rv::Bin(_, a, b) | Rv::FBin(_, a, b) | Rv::Checked(_, a, b, _) => {
            op_uses(a, gen);
            op_uses(b, gen);
        }
        Rv::Bad(_) => (),
    }
}

/// live-in locals per block; locals whose address is taken count as live
/// everywhere (they are forgotten at StorageDead instead)
fn liveness(f: &Fun) -> Vec<Vec<u64>> {
    let words = (f.nloc + 63) / 64;
    let mut borrowed = vec![0u64; words];
    for b in &f.blocks {
        for s in &b.st {
            if let St::Assign(_, Rv::Ref(p)) = s {
                if !p.p.iter().any(|e| matches!(e, Pj::Deref)) {
                    borrowed[p.l / 64] |= 1 << (p.l % 64);
                }
            }
        }
    }
    let n = f.blocks.len();
    let mut live = vec![vec![0u64; words]; n];
    let mut changed = true;
    let mut order: Vec<usize> = (0..n).filter(|b| f.rpo[*b] != usize::MAX).collect();
    order.sort_by_key(|b| std::cmp::Reverse(f.rpo[*b]));
    while changed {
        changed = false;
        for &b in &order {
            let mut l = vec![0u64; words];
            for s in succ(&f.blocks[b].tm) {
                for w in 0..words {
                    l[w] |= live[s][w];
                }
            }
            let blk = &f.blocks[b];
            // terminator
            {
                if let Tm::Call { d, .. } = &blk.tm {
                    if d.p.is_empty() {
                        l[d.l / 64] &= !(1 << (d.l % 64));
                    }
                }
                let mut gen = |x: usize| l[x / 64] |= 1 << (x % 64);
                match &blk.tm {
                    Tm::Switch(o, ..) => op_uses(o, &mut gen),
                    Tm::Assert { c, .. } => op_uses(c, &mut gen),
                    Tm::Return => gen(0),
                    Tm::Call { f, a, d, .. } => {
                        if let Callee::Dyn(o) = f {
                            op_uses(o, &mut gen);
                        }
                        a.iter().for_each(|o| op_uses(o, &mut gen));
                        if !d.p.is_empty() {
                            pl_uses(d, &mut gen);
                        }
                    }
                    _ => (),
                }
            }
            for s in blk.st.iter().rev() {
                match s {
                    St::Assign(p, r) => {
                        if p.p.is_empty() {
                            l[p.l / 64] &= !(1 << (p.l % 64));
                        }
                        let mut gen = |x: usize| l[x / 64] |= 1 << (x % 64);
                        if !p.p.is_empty() {
                            pl_uses(p, &mut gen);
                        }
                        rv_uses(r, &mut gen);
                    }
                    St::SetDisc(p, _) => {
                        let mut gen = |x: usize| l[x / 64] |= 1 << (x % 64);
                        pl_uses(p, &mut gen)
                    }
                    St::Dead(x) => l[x / 64] &= !(1 << (x % 64)),
                    St::CopyNon(a, b, c) => {
                        let mut gen = |x: usize| l[x / 64] |= 1 << (x % 64);
                        op_uses(a, &mut gen);
                        op_uses(b, &mut gen);
                        op_uses(c, &mut gen);
                    }
                    St::Nop => (),
                }
            }
            for w in 0..words {
                l[w] |= borrowed[w];
            }
            if l != live[b] {
                live[b] = l;
                changed = true;
            }
        }
    }
    live
}

/// a closure turned into a function pointer at compile time is recorded as the
/// `call_once` shim of its type: the closure body itself
pub fn through_shim(i: Instance) -> Instance {
    if i.has_body() {
        return i;
    }
    if let TyKind::RigidTy(RigidTy::FnDef(_, a)) = i.ty().kind() {
        if let Some(GenericArgKind::Type(t)) = a.0.first() {
            if let TyKind::RigidTy(RigidTy::Closure(d, a)) = t.kind() {
                return Instance::resolve_closure(d, &a, ClosureKind::Fn).unwrap_or(i);
            }
        }
    }
    i
}
