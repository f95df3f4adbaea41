//! Abstract interpreter over rustc MIR with the bit-level affine domain of
//! `dom`, intervals for the few unpartitioned numeric inputs, and trace
//! partitioning at branches whose arms cannot be joined exactly.

use crate::dom::{self, and, conj, not, or, xor, Bit, Path, F, T, TOP};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::DUMMY_SP;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct IntV {
    pub bits: Vec<Bit>,
    pub rng: Option<(u128, u128)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alloc {
    Stack(usize),
    Heap(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Proj {
    Field(u32),
    Idx(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
    None,
    Len(IntV),
    Dyn(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ptr {
    pub base: Alloc,
    pub path: Rc<Vec<Proj>>,
    pub start: u64,
    pub meta: Meta,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(Rc<IntV>),
    Agg(Rc<Vec<Val>>),
    Enum(u32, Rc<Vec<Val>>),
    Ptr(Rc<Ptr>),
    Str(Rc<str>),
    /// A value the analysed code may only move around.
    Opaque(u64),
    Top,
    Uninit,
}

pub fn int_const(v: u128, w: usize) -> Val {
    Val::Int(Rc::new(IntV { bits: (0..w).map(|i| if (v >> i) & 1 == 1 { T } else { F }).collect(), rng: None }))
}
pub fn int_bits(bits: Vec<Bit>) -> Val {
    Val::Int(Rc::new(IntV { bits, rng: None }))
}
pub fn boolv(b: Bit) -> Val {
    int_bits(vec![b])
}
pub fn unit() -> Val {
    Val::Agg(Rc::new(vec![]))
}

fn mask(w: usize) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl IntV {
    pub fn w(&self) -> usize {
        self.bits.len()
    }
    pub fn konst(&self, p: &Path) -> Option<u128> {
        if let Some((a, b)) = self.rng {
            if a == b {
                return Some(a);
            }
        }
        let mut r = 0u128;
        for (i, b) in self.bits.iter().enumerate() {
            match *b {
                F => {}
                T => r |= 1 << i,
                TOP => return None,
                x => match p.decide(x) {
                    Some(true) => r |= 1 << i,
                    Some(false) => {}
                    None => return None,
                },
            }
        }
        Some(r)
    }
    pub fn range(&self, p: &Path) -> (u128, u128) {
        let (mut lo, mut hi) = (0u128, 0u128);
        for (i, b) in self.bits.iter().enumerate() {
            match p.decide(*b) {
                Some(true) => {
                    lo |= 1 << i;
                    hi |= 1 << i;
                }
                Some(false) => {}
                None => hi |= 1 << i,
            }
        }
        if let Some((a, b)) = self.rng {
            lo = lo.max(a);
            hi = hi.min(b);
        }
        (lo, hi)
    }
    fn symbolic(&self) -> usize {
        self.bits.iter().filter(|b| **b > T).count()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub what: String,
    pub name: Option<String>,
    pub val: Option<(String, Val)>,
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Val>,
    pub heap: Vec<Val>,
    pub path: Path,
    pub trace: Rc<Vec<Event>>,
    pub notes: Rc<Vec<String>>,
}

impl State {
    pub fn new() -> Self {
        State { stack: vec![], heap: vec![], path: Path::default(), trace: Default::default(), notes: Default::default() }
    }
    pub fn alloc(&mut self, v: Val) -> Alloc {
        self.heap.push(v);
        Alloc::Heap(self.heap.len() - 1)
    }
    fn note(&mut self, s: String) {
        if !self.notes.contains(&s) {
            Rc::make_mut(&mut self.notes).push(s);
        }
    }
    fn slot(&mut self, a: Alloc) -> &mut Val {
        match a {
            Alloc::Stack(i) => &mut self.stack[i],
            Alloc::Heap(i) => &mut self.heap[i],
        }
    }
    fn slot_ref(&self, a: Alloc) -> &Val {
        match a {
            Alloc::Stack(i) => &self.stack[i],
            Alloc::Heap(i) => &self.heap[i],
        }
    }
    pub fn read(&self, a: Alloc, path: &[Proj]) -> Val {
        let mut v = self.slot_ref(a);
        for p in path {
            let i = match p {
                Proj::Field(i) => *i as usize,
                Proj::Idx(i) => *i as usize,
            };
            match v {
                Val::Agg(fs) | Val::Enum(_, fs) => match fs.get(i) {
                    Some(x) => v = x,
                    None => return Val::Top,
                },
                Val::Uninit => return Val::Uninit,
                _ => return Val::Top,
            }
        }
        v.clone()
    }
    pub fn write(&mut self, a: Alloc, path: &[Proj], new: Val) {
        fn go(v: &mut Val, path: &[Proj], new: Val) {
            if path.is_empty() {
                *v = new;
                return;
            }
            let i = match path[0] {
                Proj::Field(i) => i as usize,
                Proj::Idx(i) => i as usize,
            };
            match v {
                Val::Agg(fs) | Val::Enum(_, fs) => {
                    let fs = Rc::make_mut(fs);
                    while fs.len() <= i {
                        fs.push(Val::Uninit);
                    }
                    go(&mut fs[i], &path[1..], new);
                }
                Val::Uninit => {
                    let mut fs = vec![Val::Uninit; i + 1];
                    go(&mut fs[i], &path[1..], new);
                    *v = Val::Agg(Rc::new(fs));
                }
                _ => {} // writing into Top leaves Top
            }
        }
        go(self.slot(a), path, new)
    }
}

#[derive(Clone, Debug)]
pub enum End {
    Ret,
    Stop,
    Panic(String),
    /// unreachable or diverging without panic
    Dead,
    Budget(String),
}

pub struct BodyInfo<'tcx> {
    pub body: Body<'tcx>,
    pub ipdom: Vec<Option<usize>>, // virtual exit = nblocks
    /// per block, the locals that may still be read from its start
    pub live: Vec<Vec<bool>>,
    pub name: String,
}

pub struct Eng<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    bodies: HashMap<Instance<'tcx>, Option<Rc<BodyInfo<'tcx>>>>,
    consts: HashMap<(mir::Const<'tcx>,), Val>,
    pub const_heap: Vec<Val>,
    pub steps: u64,
    pub budget: u64,
    pub depth: usize,
    pub fns_seen: BTreeMap<String, u64>,
    pub total_steps: u64,
    pub forks: u64,
    pub joins: u64,
}

enum Place2 {
    At(Alloc, Vec<Proj>, u64, Meta),
    /// unresolvable: the root that would be clobbered
    Unknown(Option<(Alloc, Vec<Proj>)>),
}

pub struct Fr<'tcx> {
    pub info: Rc<BodyInfo<'tcx>>,
    pub base: usize,
}

impl<'tcx> Eng<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Eng {
            tcx,
            bodies: HashMap::new(),
            consts: HashMap::new(),
            const_heap: vec![],
            steps: 0,
            budget: 30_000_000,
            depth: 0,
            fns_seen: BTreeMap::new(),
            total_steps: 0,
            forks: 0,
            joins: 0,
        }
    }

    /// Forget cached values (they hold forms of a previous domain).
    pub fn clear_state(&mut self) {
        self.consts.clear();
        self.const_heap.clear();
    }

    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    pub fn body(&mut self, inst: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return b.clone();
        }
        let tcx = self.tcx;
        let ok = match inst.def {
            ty::InstanceKind::Item(d) => {
                (d.is_local() || tcx.is_mir_available(d) || tcx.is_const_fn(d))
                    && !tcx.is_foreign_item(d)
                    && tcx.intrinsic(d).is_none()
            }
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Clone(..)) => true,
            _ => false,
        };
        let r = if ok {
            let raw = match inst.def {
                ty::InstanceKind::Item(d) if !d.is_local() && !tcx.is_mir_available(d) => tcx.mir_for_ctfe(d),
                k => tcx.instance_mir(k),
            };
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env(),
                EarlyBinder::bind_unchecked(raw.clone()),
            );
            let ipdom = ipdoms(&body);
            let name = tcx.def_path_str(inst.def_id());
            let live = liveness(&body);
            Some(Rc::new(BodyInfo { body, ipdom, live, name }))
        } else {
            None
        };
        self.bodies.insert(inst, r.clone());
        r
    }

    // ---------------------------------------------------------------- consts

    fn const_val(&mut self, c: &ConstOperand<'tcx>, st: &mut State) -> Val {
        let ty = c.const_.ty();
        if let ty::FnDef(..) = ty.kind() {
            return unit();
        }
        match c.const_.eval(self.tcx, self.env(), c.span) {
            Ok(cv) => self.cv(cv, ty, st),
            Err(_) => Val::Top,
        }
    }

    pub fn eval_const_item(&mut self, def: DefId) -> Option<u128> {
        let tcx = self.tcx;
        let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        let cv = tcx.const_eval_poly(def).ok()?;
        cv.try_to_bits_for_ty(tcx, self.env(), ty)
    }

    fn cv(&mut self, cv: ConstValue, ty: Ty<'tcx>, st: &mut State) -> Val {
        let tcx = self.tcx;
        match ty.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let w = self.width(ty).unwrap();
                match cv.try_to_bits_for_ty(tcx, self.env(), ty) {
                    Some(b) => int_const(b, w),
                    None => Val::Top,
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                match cv.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => Val::Str(String::from_utf8_lossy(b).into_owned().into()),
                    None => Val::Opaque(0),
                }
            }
            ty::Array(..) | ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(a, _) = ty.kind() {
                    if a.is_union() {
                        return Val::Top;
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(cv, ty) {
                    Some(d) => {
                        let fs: Vec<Val> = d.fields.iter().map(|(v, t)| self.cv(*v, *t, st)).collect();
                        match ty.kind() {
                            ty::Adt(a, _) if a.is_enum() => match d.variant {
                                Some(v) => Val::Enum(v.as_u32(), Rc::new(fs)),
                                None => Val::Top,
                            },
                            _ => Val::Agg(Rc::new(fs)),
                        }
                    }
                    None => Val::Top,
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                // pointer to constant memory
                let (id, off, len) = match cv {
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        (prov.alloc_id(), off, None)
                    }
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
                    ConstValue::Indirect { alloc_id, offset } => match self.const_ptr(alloc_id, offset, matches!(inner.kind(), ty::Slice(_) | ty::Str)) {
                        Some(x) => x,
                        None => return Val::Opaque(1),
                    },
                    _ => return Val::Opaque(1),
                };
                if !matches!(tcx.try_get_global_alloc(id), Some(mir::interpret::GlobalAlloc::Memory(_))) {
                    return Val::Opaque(1);
                }
                let (val, meta) = match (inner.kind(), len) {
                    (ty::Slice(e), Some(n)) => {
                        let aty = Ty::new_array(tcx, *e, n);
                        (
                            self.cv(ConstValue::Indirect { alloc_id: id, offset: off }, aty, st),
                            Meta::Len(IntV { bits: bitsof(n as u128, 64), rng: None }),
                        )
                    }
                    (_, None) if !matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) => {
                        (self.cv(ConstValue::Indirect { alloc_id: id, offset: off }, *inner, st), Meta::None)
                    }
                    _ => return Val::Opaque(1),
                };
                let a = st.alloc(val);
                Val::Ptr(Rc::new(Ptr { base: a, path: Rc::new(vec![]), start: 0, meta }))
            }
            ty::FnDef(..) => unit(),
            _ => Val::Opaque(2),
        }
    }

    /// a pointer stored in constant memory: what it points to, and its length if wide
    fn const_ptr(&self, id: mir::interpret::AllocId, off: rustc_abi::Size, wide: bool) -> Option<(mir::interpret::AllocId, rustc_abi::Size, Option<u64>)> {
        use mir::interpret::alloc_range;
        let tcx = self.tcx;
        let a = match tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(a) => a.inner(),
            _ => return None,
        };
        let sz = tcx.data_layout.pointer_size();
        let p = a.read_scalar(&tcx, alloc_range(off, sz), true).ok()?.to_pointer(&tcx);
        let n = if wide { Some(a.read_scalar(&tcx, alloc_range(off + sz, sz), false).ok()?.to_target_usize(&tcx).discard_err()?) } else { None };
        let (prov, o) = p.into_raw_parts();
        Some((prov?.alloc_id(), o, n))
    }

    pub fn width(&self, ty: Ty<'tcx>) -> Option<usize> {
        Some(match ty.kind() {
            ty::Int(i) => i.bit_width().unwrap_or(64) as usize,
            ty::Uint(u) => u.bit_width().unwrap_or(64) as usize,
            ty::Bool => 1,
            ty::Char => 32,
            _ => return None,
        })
    }

    // ---------------------------------------------------------------- places

    fn resolve(&mut self, fr: &Fr<'tcx>, st: &mut State, pl: &Place<'tcx>) -> Place2 {
        let mut base = Alloc::Stack(fr.base + pl.local.as_usize());
        let mut path: Vec<Proj> = vec![];
        let mut start = 0u64;
        let mut meta = Meta::None;
        for e in pl.projection.iter() {
            match e {
                ProjectionElem::Deref => match st.read(base, &path) {
                    Val::Ptr(p) => {
                        base = p.base;
                        path = (*p.path).clone();
                        start = p.start;
                        meta = p.meta.clone();
                    }
                    _ => return Place2::Unknown(None),
                },
                ProjectionElem::Field(i, _) => {
                    // peel transparent Box pointers is handled by BoxDerefTransmute
                    path.push(Proj::Field(i.as_u32()));
                    start = 0;
                    meta = Meta::None;
                }
                ProjectionElem::Index(l) => {
                    let iv = st.read(Alloc::Stack(fr.base + l.as_usize()), &[]);
                    match iv {
                        Val::Int(i) => match i.konst(&st.path) {
                            Some(k) => {
                                path.push(Proj::Idx(start + k as u64));
                                start = 0;
                                meta = Meta::None;
                            }
                            None => return Place2::Unknown(Some((base, path))),
                        },
                        _ => return Place2::Unknown(Some((base, path))),
                    }
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let k = if from_end {
                        let n = match &meta {
                            Meta::Len(l) => l.konst(&st.path).map(|x| x as u64),
                            _ => match st.read(base, &path) {
                                Val::Agg(fs) => Some(fs.len() as u64),
                                _ => None,
                            },
                        };
                        match n {
                            Some(n) => n - offset,
                            None => return Place2::Unknown(Some((base, path))),
                        }
                    } else {
                        offset
                    };
                    path.push(Proj::Idx(start + k));
                    start = 0;
                    meta = Meta::None;
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) => {}
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = match &meta {
                        Meta::Len(l) => l.konst(&st.path).map(|x| x as u64),
                        _ => match st.read(base, &path) {
                            Val::Agg(fs) => Some(fs.len() as u64),
                            _ => None,
                        },
                    };
                    let n = match n {
                        Some(n) => n,
                        None => return Place2::Unknown(Some((base, path))),
                    };
                    let end = if from_end { n - to } else { to };
                    start += from;
                    meta = Meta::Len(IntV { bits: bitsof((end - from) as u128, 64), rng: None });
                }
                _ => return Place2::Unknown(Some((base, path))),
            }
        }
        Place2::At(base, path, start, meta)
    }

    fn read_place(&mut self, fr: &Fr<'tcx>, st: &mut State, pl: &Place<'tcx>) -> Val {
        match self.resolve(fr, st, pl) {
            Place2::At(b, p, _, _) => st.read(b, &p),
            Place2::Unknown(root) => {
                // an array read at a symbolic index: the value is one of the elements
                if let Some((b, p)) = root {
                    if let Val::Agg(fs) = st.read(b, &p) {
                        if !fs.is_empty() && fs.iter().all(|x| *x == fs[0]) && pl.projection.len() > 0 {
                            return fs[0].clone();
                        }
                    }
                }
                Val::Top
            }
        }
    }

    fn write_place(&mut self, fr: &Fr<'tcx>, st: &mut State, pl: &Place<'tcx>, v: Val) {
        match self.resolve(fr, st, pl) {
            Place2::At(b, p, _, _) => st.write(b, &p, v),
            Place2::Unknown(Some((b, p))) => {
                st.note("write through unknown index".into());
                st.write(b, &p, Val::Top)
            }
            Place2::Unknown(None) => {
                st.note("write through unknown pointer".into());
                for h in st.heap.iter_mut() {
                    *h = Val::Top;
                }
                for s in st.stack.iter_mut() {
                    if !matches!(s, Val::Ptr(_)) {
                        *s = Val::Top;
                    }
                }
            }
        }
    }

    fn operand(&mut self, fr: &Fr<'tcx>, st: &mut State, op: &Operand<'tcx>) -> Val {
        match op {
            Operand::Copy(p) | Operand::Move(p) => self.read_place(fr, st, p),
            Operand::Constant(c) => self.const_val(c, st),
            Operand::RuntimeChecks(k) => match k {
                RuntimeChecks::OverflowChecks => boolv(T),
                _ => boolv(F),
            },
        }
    }

    fn op_ty(&self, fr: &Fr<'tcx>, op: &Operand<'tcx>) -> Ty<'tcx> {
        op.ty(&fr.info.body.local_decls, self.tcx)
    }

    // ---------------------------------------------------------------- rvalues

    fn as_int(&self, v: &Val, w: usize) -> Rc<IntV> {
        match v {
            Val::Int(i) => i.clone(),
            Val::Agg(fs) if fs.len() == 1 => self.as_int(&fs[0], w),
            _ => Rc::new(IntV { bits: vec![TOP; w], rng: None }),
        }
    }

    /// (value, optional overflow flag)
    fn arith(&self, op: BinOp, a: &IntV, b: &IntV, signed: bool, p: &Path) -> (IntV, Bit) {
        let w = a.w();
        if let (Some(x), Some(y)) = (a.konst(p), b.konst(p)) {
            let (r, o) = konst_arith(op, x, y, w, signed);
            return (IntV { bits: bitsof(r, w), rng: None }, if o { T } else { F });
        }
        let (al, ah) = a.range(p);
        let (bl, bh) = b.range(p);
        match op {
            BinOp::Add if !signed => {
                // disjoint bits: addition is OR
                let m = mask(w);
                if a.bits.iter().zip(&b.bits).all(|(x, y)| and(*x, *y) == F) {
                    let rng = match ah.checked_add(bh) {
                        Some(h) if a.rng.is_some() || b.rng.is_some() => Some((al.saturating_add(bl), h.min(m))),
                        _ => None,
                    };
                    return (
                        IntV { bits: a.bits.iter().zip(&b.bits).map(|(x, y)| or(*x, *y)).collect(), rng },
                        F,
                    );
                }
                let lo = al.checked_add(bl).filter(|x| *x <= m);
                let hi = ah.checked_add(bh).filter(|x| *x <= m);
                let (bits, mut carry) = ripple(&a.bits, &b.bits, F);
                if carry == TOP {
                    for (k, other) in [(a.konst(p), b), (b.konst(p), a)] {
                        if let Some(k) = k {
                            carry = self.lt(&IntV { bits: bitsof(m - k, w), rng: None }, other, false, p);
                        }
                    }
                }
                match (lo, hi) {
                    (Some(l), Some(h)) => (IntV { bits, rng: Some((l, h)) }, F),
                    (None, _) => (IntV { bits, rng: None }, T),
                    (Some(_), None) => (IntV { bits, rng: None }, carry),
                }
            }
            BinOp::Sub if !signed => {
                // subset bits: a - b == a ^ b when b's bits are within a's
                if a.bits.iter().zip(&b.bits).all(|(x, y)| *y == F || *x == T || *x == *y) {
                    let rng = if (a.rng.is_some() || b.rng.is_some()) && ah >= bl {
                        Some((al.saturating_sub(bh), ah - bl))
                    } else {
                        None
                    };
                    return (
                        IntV { bits: a.bits.iter().zip(&b.bits).map(|(x, y)| xor(*x, *y)).collect(), rng },
                        F,
                    );
                }
                let nb: Vec<Bit> = b.bits.iter().map(|x| not(*x)).collect();
                let (bits, mut carry) = ripple(&a.bits, &nb, T);
                if carry == TOP && (a.konst(p).is_some() || b.konst(p).is_some()) {
                    carry = not(self.lt(a, b, false, p));
                }
                if al >= bh {
                    (IntV { bits, rng: Some((al - bh, ah - bl)) }, F)
                } else if ah < bl {
                    (IntV { bits, rng: None }, T)
                } else {
                    (IntV { bits, rng: None }, not(carry))
                }
            }
            BinOp::Mul if !signed => {
                let m = mask(w);
                for (k, other) in [(a.konst(p), b), (b.konst(p), a)] {
                    if let Some(k) = k {
                        if k == 0 {
                            return (IntV { bits: vec![F; w], rng: None }, F);
                        }
                        if k.is_power_of_two() {
                            let s = k.trailing_zeros() as usize;
                            let lost: Vec<Bit> = other.bits[w - s..].iter().map(|x| not(*x)).collect();
                            let o = not(conj(lost));
                            let mut bits = vec![F; s];
                            bits.extend_from_slice(&other.bits[..w - s]);
                            let rng = match (al.max(bl), ah.checked_mul(bh)) {
                                (_, Some(h)) if h <= m => Some((al.saturating_mul(bl), h)),
                                _ => None,
                            };
                            let o = if rng.is_some() { F } else { o };
                            return (IntV { bits, rng }, o);
                        }
                    }
                }
                match (al.checked_mul(bl), ah.checked_mul(bh)) {
                    (Some(l), Some(h)) if h <= m => (IntV { bits: vec![TOP; w], rng: Some((l, h)) }, F),
                    _ => {
                        // boolean multiplicand: select
                        (IntV { bits: vec![TOP; w], rng: None }, TOP)
                    }
                }
            }
            BinOp::Add => {
                let (bits, carry) = ripple(&a.bits, &b.bits, F);
                let (sa, sb, sr) = (a.bits[w - 1], b.bits[w - 1], bits[w - 1]);
                let _ = carry;
                let o = and(not(xor(sa, sb)), xor(sa, sr));
                (IntV { bits, rng: None }, o)
            }
            BinOp::Sub => {
                let nb: Vec<Bit> = b.bits.iter().map(|x| not(*x)).collect();
                let (bits, _) = ripple(&a.bits, &nb, T);
                let (sa, sb, sr) = (a.bits[w - 1], b.bits[w - 1], bits[w - 1]);
                let o = and(xor(sa, sb), xor(sa, sr));
                (IntV { bits, rng: None }, o)
            }
            _ => (IntV { bits: vec![TOP; w], rng: None }, TOP),
        }
    }

    fn lt(&self, a: &IntV, b: &IntV, signed: bool, p: &Path) -> Bit {
        let (mut a, mut b) = (a.clone(), b.clone());
        let w = a.w();
        if signed {
            a.bits[w - 1] = not(a.bits[w - 1]);
            b.bits[w - 1] = not(b.bits[w - 1]);
            let flip = |r: Option<(u128, u128)>| {
                r.and_then(|(l, h)| {
                    let s = 1u128 << (w - 1);
                    if (l ^ h) & s == 0 {
                        Some((l ^ s, h ^ s))
                    } else {
                        None
                    }
                })
            };
            a.rng = flip(a.rng);
            b.rng = flip(b.rng);
        }
        let (al, ah) = a.range(p);
        let (bl, bh) = b.range(p);
        if ah < bl {
            return T;
        }
        if al >= bh {
            return F;
        }
        let mut r = F;
        for i in 0..w {
            let (x, y) = (p.reduce(a.bits[i]), p.reduce(b.bits[i]));
            // r = (!x & y) | (!(x^y) & r)
            r = if x == y {
                r
            } else if xor(x, y) == T {
                y
            } else {
                or(and(not(x), y), and(not(xor(x, y)), r))
            };
        }
        r
    }

    fn eq(&self, a: &IntV, b: &IntV, p: &Path) -> Bit {
        let (al, ah) = a.range(p);
        let (bl, bh) = b.range(p);
        if ah < bl || bh < al {
            return F;
        }
        conj(a.bits.iter().zip(&b.bits).map(|(x, y)| not(xor(*x, *y))).collect())
    }

    fn shift(&self, left: bool, a: &IntV, amt: &IntV, signed: bool, p: &Path) -> IntV {
        let w = a.w();
        if a.bits.iter().all(|b| *b == F) {
            return a.clone();
        }
        match amt.konst(p) {
            Some(k) => {
                let k = (k as usize) & (w - 1);
                let fill = if !left && signed { a.bits[w - 1] } else { F };
                let bits = (0..w)
                    .map(|i| {
                        if left {
                            if i >= k {
                                a.bits[i - k]
                            } else {
                                F
                            }
                        } else if i + k < w {
                            a.bits[i + k]
                        } else {
                            fill
                        }
                    })
                    .collect();
                let rng = if !left && !signed { a.rng.map(|(l, h)| (l >> k, h >> k)) } else { None };
                IntV { bits, rng }
            }
            None => IntV { bits: vec![TOP; w], rng: None },
        }
    }

    fn binop(&mut self, st: &State, op: BinOp, a: &Val, b: &Val, ty: Ty<'tcx>, bty: Ty<'tcx>) -> Val {
        use BinOp::*;
        let p = &st.path;
        if let (Val::Ptr(x), Val::Ptr(y)) = (a, b) {
            if x.base == y.base && x.path.len() == y.path.len() {
                let same = x.path == y.path && x.start == y.start;
                match op {
                    Eq => return boolv(if same { T } else { F }),
                    Ne => return boolv(if same { F } else { T }),
                    _ => {}
                }
            }
            return if matches!(op, Eq | Ne | Lt | Le | Gt | Ge) { boolv(TOP) } else { Val::Top };
        }
        if op == Offset {
            return self.ptr_offset(st, a, b, false);
        }
        let w = match self.width(ty) {
            Some(w) => w,
            None => {
                return match op {
                    Eq | Ne | Lt | Le | Gt | Ge => boolv(TOP),
                    _ => Val::Top,
                }
            }
        };
        let signed = ty.is_signed();
        let bw = self.width(bty).unwrap_or(w);
        let (x, y) = (self.as_int(a, w), self.as_int(b, bw));
        let zip = |f: fn(Bit, Bit) -> Bit| {
            int_bits(x.bits.iter().zip(&y.bits).map(|(a, b)| f(*a, *b)).collect())
        };
        match op {
            BitXor => zip(xor),
            BitAnd => zip(and),
            BitOr => zip(or),
            Shl | ShlUnchecked => Val::Int(Rc::new(self.shift(true, &x, &y, signed, p))),
            Shr | ShrUnchecked => Val::Int(Rc::new(self.shift(false, &x, &y, signed, p))),
            Eq => boolv(self.eq(&x, &y, p)),
            Ne => boolv(not(self.eq(&x, &y, p))),
            Lt => boolv(self.lt(&x, &y, signed, p)),
            Ge => boolv(not(self.lt(&x, &y, signed, p))),
            Gt => boolv(self.lt(&y, &x, signed, p)),
            Le => boolv(not(self.lt(&y, &x, signed, p))),
            Cmp => match (p.decide(self.lt(&x, &y, signed, p)), p.decide(self.lt(&y, &x, signed, p))) {
                (Some(true), _) => Val::Enum(0, Rc::new(vec![])),
                (_, Some(true)) => Val::Enum(2, Rc::new(vec![])),
                (Some(false), Some(false)) => Val::Enum(1, Rc::new(vec![])),
                _ => Val::Top,
            },
            Add | AddUnchecked => Val::Int(Rc::new(self.arith(Add, &x, &y, signed, p).0)),
            Sub | SubUnchecked => Val::Int(Rc::new(self.arith(Sub, &x, &y, signed, p).0)),
            Mul | MulUnchecked => Val::Int(Rc::new(self.arith(Mul, &x, &y, signed, p).0)),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let base = match op {
                    AddWithOverflow => Add,
                    SubWithOverflow => Sub,
                    _ => Mul,
                };
                let (r, o) = self.arith(base, &x, &y, signed, p);
                Val::Agg(Rc::new(vec![Val::Int(Rc::new(r)), boolv(o)]))
            }
            Div | Rem => {
                if let (Some(a), Some(b)) = (x.konst(p), y.konst(p)) {
                    if b == 0 {
                        return Val::Top;
                    }
                    let r = if signed {
                        let (a, b) = (sext(a, w), sext(b, w));
                        (if op == Div { a.wrapping_div(b) } else { a.wrapping_rem(b) }) as u128 & mask(w)
                    } else if op == Div {
                        a / b
                    } else {
                        a % b
                    };
                    return int_const(r, w);
                }
                if let (false, Some(k)) = (signed, y.konst(p)) {
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros() as usize;
                        let (lo, hi) = x.range(p);
                        return Val::Int(Rc::new(if op == Div {
                            let mut bits = x.bits[s..].to_vec();
                            bits.resize(w, F);
                            IntV { bits, rng: x.rng.map(|_| (lo >> s, hi >> s)) }
                        } else {
                            let mut bits = x.bits[..s].to_vec();
                            bits.resize(w, F);
                            IntV { bits, rng: None }
                        }));
                    }
                    if k != 0 {
                        let (lo, hi) = x.range(p);
                        return Val::Int(Rc::new(if op == Div {
                            IntV { bits: vec![TOP; w], rng: Some((lo / k, hi / k)) }
                        } else {
                            IntV { bits: vec![TOP; w], rng: Some(if hi < k { (lo, hi) } else { (0, k - 1) }) }
                        }));
                    }
                }
                Val::Int(Rc::new(IntV { bits: vec![TOP; w], rng: None }))
            }
            Offset => Val::Top,
        }
    }

    fn ptr_offset(&self, st: &State, a: &Val, b: &Val, neg: bool) -> Val {
        if let (Val::Ptr(x), Val::Int(k)) = (a, b) {
            if let Some(k) = k.konst(&st.path) {
                let k = k as u64 as i64;
                let k = if neg { -k } else { k };
                let mut path = (*x.path).clone();
                if let Some(Proj::Idx(i)) = path.last_mut() {
                    *i = (*i as i64 + k) as u64;
                    return Val::Ptr(Rc::new(Ptr { base: x.base, path: Rc::new(path), start: x.start, meta: x.meta.clone() }));
                } else if k == 0 {
                    return a.clone();
                }
            }
        }
        Val::Top
    }

    fn cast_int(&self, v: &IntV, from_signed: bool, w: usize) -> IntV {
        let mut bits = v.bits.clone();
        let sign = if from_signed { *bits.last().unwrap_or(&F) } else { F };
        if bits.len() < w {
            bits.resize(w, sign);
            let rng = if from_signed { None } else { v.rng };
            IntV { bits, rng }
        } else {
            bits.truncate(w);
            let rng = v.rng.filter(|(_, h)| *h <= mask(w));
            IntV { bits, rng }
        }
    }

    fn flat_bits(&self, v: &Val, out: &mut Vec<Bit>, ty: Ty<'tcx>) -> bool {
        match (v, ty.kind()) {
            (Val::Int(i), ty::Bool) => {
                out.push(i.bits[0]);
                out.extend([F; 7]);
                true
            }
            (Val::Int(i), _) => {
                out.extend_from_slice(&i.bits);
                true
            }
            (Val::Agg(fs), ty::Array(e, _)) => fs.iter().all(|f| self.flat_bits(f, out, *e)),
            (Val::Agg(fs), ty::Adt(a, args)) if a.is_struct() && fs.len() == 1 => {
                let t = a.non_enum_variant().fields[rustc_abi::FieldIdx::from_u32(0)].ty(self.tcx, args).skip_norm_wip();
                self.flat_bits(&fs[0], out, t)
            }
            _ => false,
        }
    }
    fn unflat(&self, bits: &[Bit], pos: &mut usize, ty: Ty<'tcx>) -> Option<Val> {
        match ty.kind() {
            ty::Bool => {
                let b = *bits.get(*pos)?;
                *pos += 8;
                Some(boolv(b))
            }
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                let w = self.width(ty)?;
                let r = bits.get(*pos..*pos + w)?.to_vec();
                *pos += w;
                Some(int_bits(r))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx)?;
                let mut fs = vec![];
                for _ in 0..n {
                    fs.push(self.unflat(bits, pos, *e)?);
                }
                Some(Val::Agg(Rc::new(fs)))
            }
            ty::Adt(a, args) if a.is_struct() && a.non_enum_variant().fields.len() == 1 => {
                let t = a.non_enum_variant().fields[rustc_abi::FieldIdx::from_u32(0)].ty(self.tcx, args).skip_norm_wip();
                Some(Val::Agg(Rc::new(vec![self.unflat(bits, pos, t)?])))
            }
            _ => None,
        }
    }

    pub fn transmute(&self, v: &Val, from: Ty<'tcx>, to: Ty<'tcx>) -> Val {
        if from == to {
            return v.clone();
        }
        if to.is_raw_ptr() || to.is_ref() || to.is_box() {
            // NonNull / Unique / Box -> pointer leaf
            let mut cur = v.clone();
            loop {
                match cur {
                    Val::Ptr(_) => {
                        return if to.is_box() { boxed(cur) } else { cur };
                    }
                    Val::Agg(ref fs) if !fs.is_empty() => {
                        let n = fs[0].clone();
                        cur = n;
                    }
                    _ => return Val::Top,
                }
            }
        }
        if let Val::Ptr(_) = v {
            if let ty::Adt(a, args) = to.kind() {
                if a.is_struct() {
                    let fields = &a.non_enum_variant().fields;
                    let mut fs = vec![];
                    for f in fields.iter() {
                        let t = f.ty(self.tcx, args).skip_norm_wip();
                        fs.push(if fs.is_empty() { self.transmute(v, from, t) } else { unit() });
                    }
                    return Val::Agg(Rc::new(fs));
                }
            }
        }
        let mut bits = vec![];
        if self.flat_bits(v, &mut bits, from) {
            let mut pos = 0;
            if let Some(r) = self.unflat(&bits, &mut pos, to) {
                if pos == bits.len() {
                    return r;
                }
            }
        }
        // same-shape newtypes
        if let (Val::Agg(_), true) = (v, matches!(to.kind(), ty::Adt(..))) {
            return v.clone();
        }
        if let ty::Adt(a, args) = from.kind() {
            if a.is_struct() && a.non_enum_variant().fields.len() == 1 {
                if let Val::Agg(fs) = v {
                    let t = a.non_enum_variant().fields[rustc_abi::FieldIdx::from_u32(0)].ty(self.tcx, args).skip_norm_wip();
                    return self.transmute(&fs[0], t, to);
                }
            }
        }
        Val::Top
    }

    fn cast(&mut self, st: &mut State, kind: &CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> Val {
        match kind {
            CastKind::IntToInt => {
                let w = self.width(to).unwrap_or(64);
                match (&v, from.kind()) {
                    (Val::Enum(vi, _), ty::Adt(a, _)) => {
                        let d = a.discriminant_for_variant(self.tcx, (*vi).into());
                        int_const(d.val & mask(w), w)
                    }
                    _ => {
                        let fw = self.width(from).unwrap_or(w);
                        let iv = self.as_int(&v, fw);
                        Val::Int(Rc::new(self.cast_int(&iv, from.is_signed(), w)))
                    }
                }
            }
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => self.transmute(&v, from, to),
            CastKind::PtrToPtr => self.ptr_cast(v, from, to),
            CastKind::PointerCoercion(c, _) => {
                use rustc_middle::ty::adjustment::PointerCoercion::*;
                match c {
                    Unsize => self.unsize(st, v, from, to),
                    ArrayToPointer => {
                        if let Val::Ptr(p) = &v {
                            let mut path = (*p.path).clone();
                            path.push(Proj::Idx(0));
                            return Val::Ptr(Rc::new(Ptr { base: p.base, path: Rc::new(path), start: 0, meta: Meta::None }));
                        }
                        Val::Top
                    }
                    _ => v,
                }
            }
            _ => Val::Top,
        }
    }

    fn pointee(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match t.kind() {
            ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
            _ => t.boxed_ty(),
        }
    }

    fn ptr_cast(&self, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> Val {
        let (f, t) = match (self.pointee(from), self.pointee(to)) {
            (Some(f), Some(t)) => (f, t),
            _ => return Val::Top,
        };
        if f == t {
            return v;
        }
        if let Val::Ptr(p) = &v {
            match (f.kind(), t.kind()) {
                (ty::Slice(e), _) if *e == t => {
                    let mut path = (*p.path).clone();
                    path.push(Proj::Idx(p.start));
                    return Val::Ptr(Rc::new(Ptr { base: p.base, path: Rc::new(path), start: 0, meta: Meta::None }));
                }
                (ty::Array(e, _), _) if *e == t => {
                    let mut path = (*p.path).clone();
                    path.push(Proj::Idx(0));
                    return Val::Ptr(Rc::new(Ptr { base: p.base, path: Rc::new(path), start: 0, meta: Meta::None }));
                }
                (_, ty::Array(e, _)) if *e == f => {
                    let mut path = (*p.path).clone();
                    if let Some(Proj::Idx(0)) = path.last() {
                        path.pop();
                        return Val::Ptr(Rc::new(Ptr { base: p.base, path: Rc::new(path), start: 0, meta: Meta::None }));
                    }
                }
                _ => return v,
            }
        }
        Val::Top
    }

    fn unsize(&mut self, _st: &mut State, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> Val {
        if let (Some(f), Some(t)) = (self.pointee(from), self.pointee(to)) {
            if let Val::Ptr(p) = &v {
                match (f.kind(), t.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => {
                        let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                        return Val::Ptr(Rc::new(Ptr {
                            base: p.base,
                            path: p.path.clone(),
                            start: 0,
                            meta: Meta::Len(IntV { bits: bitsof(n as u128, 64), rng: None }),
                        }));
                    }
                    (_, ty::Dynamic(..)) => {
                        return Val::Ptr(Rc::new(Ptr {
                            base: p.base,
                            path: p.path.clone(),
                            start: p.start,
                            meta: Meta::Dyn(f.to_string()),
                        }));
                    }
                    _ => {}
                }
            }
        }
        Val::Top
    }

    fn rvalue(&mut self, fr: &Fr<'tcx>, st: &mut State, rv: &Rvalue<'tcx>, dest: Ty<'tcx>) -> Val {
        match rv {
            Rvalue::Use(op, _) => self.operand(fr, st, op),
            Rvalue::CopyForDeref(p) => self.read_place(fr, st, p),
            Rvalue::Repeat(op, n) => {
                let v = self.operand(fr, st, op);
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => Val::Agg(Rc::new(vec![v; n as usize])),
                    None => Val::Top,
                }
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => match self.resolve(fr, st, p) {
                Place2::At(b, path, start, meta) => {
                    Val::Ptr(Rc::new(Ptr { base: b, path: Rc::new(path), start, meta }))
                }
                Place2::Unknown(_) => {
                    // reborrow of an opaque pointer
                    if let Some((PlaceElem::Deref, rest)) = p.projection.split_last() {
                        let inner = Place { local: p.local, projection: self.tcx.mk_place_elems(rest) };
                        return self.read_place(fr, st, &inner);
                    }
                    Val::Top
                }
            },
            Rvalue::Reborrow(_, _, p) => self.read_place(fr, st, p),
            Rvalue::Cast(k, op, to) => {
                let from = self.op_ty(fr, op);
                let v = self.operand(fr, st, op);
                self.cast(st, k, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = (&ab.0, &ab.1);
                let (ta, tb) = (self.op_ty(fr, a), self.op_ty(fr, b));
                let (va, vb) = (self.operand(fr, st, a), self.operand(fr, st, b));
                self.binop(st, *op, &va, &vb, ta, tb)
            }
            Rvalue::UnaryOp(op, a) => {
                let ta = self.op_ty(fr, a);
                let v = self.operand(fr, st, a);
                match op {
                    UnOp::Not => {
                        let w = self.width(ta).unwrap_or(1);
                        let i = self.as_int(&v, w);
                        int_bits(i.bits.iter().map(|b| not(*b)).collect())
                    }
                    UnOp::Neg => {
                        let w = self.width(ta).unwrap_or(64);
                        let i = self.as_int(&v, w);
                        let nb: Vec<Bit> = i.bits.iter().map(|b| not(*b)).collect();
                        let (bits, _) = ripple(&nb, &vec![F; w], T);
                        int_bits(bits)
                    }
                    UnOp::PtrMetadata => match &v {
                        Val::Ptr(p) => match &p.meta {
                            Meta::Len(l) => Val::Int(Rc::new(l.clone())),
                            _ => unit(),
                        },
                        Val::Str(s) => int_const(s.len() as u128, 64),
                        _ => Val::Top,
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let v = self.read_place(fr, st, p);
                let pty = p.ty(&fr.info.body.local_decls, self.tcx).ty;
                let w = self.width(dest).unwrap_or(64);
                match (&v, pty.kind()) {
                    (Val::Enum(i, _), ty::Adt(a, _)) => {
                        let d = a.discriminant_for_variant(self.tcx, (*i).into());
                        int_const(d.val & mask(w), w)
                    }
                    (Val::Enum(i, _), _) => int_const(*i as u128, w),
                    _ => Val::Int(Rc::new(IntV { bits: vec![TOP; w], rng: None })),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<Val> = ops.iter().map(|o| self.operand(fr, st, o)).collect();
                match &**k {
                    AggregateKind::Adt(def, vi, ..) => {
                        let adt = self.tcx.adt_def(*def);
                        if adt.is_enum() {
                            Val::Enum(vi.as_u32(), Rc::new(fs))
                        } else if adt.is_union() {
                            Val::Top
                        } else {
                            Val::Agg(Rc::new(fs))
                        }
                    }
                    AggregateKind::RawPtr(..) => {
                        // (thin pointer, metadata)
                        match (&fs[0], &fs[1]) {
                            (Val::Ptr(p), Val::Int(l)) => {
                                let mut path = (*p.path).clone();
                                let mut start = 0;
                                if let Some(Proj::Idx(i)) = path.last() {
                                    start = *i;
                                    path.pop();
                                }
                                Val::Ptr(Rc::new(Ptr { base: p.base, path: Rc::new(path), start, meta: Meta::Len((**l).clone()) }))
                            }
                            (p, _) => p.clone(),
                        }
                    }
                    _ => Val::Agg(Rc::new(fs)),
                }
            }
            _ => Val::Top,
        }
    }

    // ---------------------------------------------------------------- control flow

    pub fn call_inst(&mut self, inst: Instance<'tcx>, args: Vec<Val>, mut st: State) -> Vec<(State, End, Val)> {
        let info = match self.body(inst) {
            Some(b) => b,
            None => {
                let n = self.tcx.def_path_str(inst.def_id());
                st.note(format!("no MIR for {n}"));
                return vec![(st, End::Ret, Val::Top)];
            }
        };
        *self.fns_seen.entry(info.name.clone()).or_insert(0) += 1;
        if self.depth > 60 {
            return vec![(st, End::Budget("call depth".into()), Val::Top)];
        }
        self.depth += 1;
        let base = st.stack.len();
        let n = info.body.local_decls.len();
        st.stack.resize(base + n, Val::Uninit);
        let nargs = info.body.arg_count;
        let mut args = args;
        if let Some(spread) = info.body.spread_arg {
            // the last argument is a tuple local; re-pack
            let k = spread.as_usize() - 1;
            if args.len() != nargs {
                let tail = args.split_off(k.min(args.len()));
                args.push(Val::Agg(Rc::new(tail)));
            }
        } else if args.len() != nargs && args.len() == 2 {
            // closure call through Fn*: (env, (args..))
            if let Val::Agg(t) = args[1].clone() {
                let env = args[0].clone();
                args = vec![env];
                args.extend(t.iter().cloned());
            }
        }
        for (i, a) in args.into_iter().enumerate() {
            if i < nargs {
                st.stack[base + 1 + i] = a;
            }
        }
        let fr = Fr { info: info.clone(), base };
        let outs = self.run(&fr, 0, st, None);
        self.depth -= 1;
        outs.into_iter()
            .map(|(mut s, e)| {
                let r = s.stack.get(base).cloned().unwrap_or(Val::Top);
                s.stack.truncate(base);
                (s, e, if matches!(r, Val::Uninit) { unit() } else { r })
            })
            .collect()
    }

    fn run(&mut self, fr: &Fr<'tcx>, start: usize, st: State, stop: Option<usize>) -> Vec<(State, End)> {
        let mut bb = start;
        let mut st = st;
        let info = fr.info.clone();
        let body = &info.body;
        loop {
            if Some(bb) == stop {
                return vec![(st, End::Stop)];
            }
            let data = &body.basic_blocks[BasicBlock::from_usize(bb)];
            self.steps += 1 + data.statements.len() as u64;
            self.total_steps += 1 + data.statements.len() as u64;
            if self.steps > self.budget {
                return vec![(st, End::Budget(format!("step budget in {}", info.name)))];
            }
            for (si, s) in data.statements.iter().enumerate() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (pl, rv) = (&b.0, &b.1);
                        let dty = pl.ty(&body.local_decls, self.tcx).ty;
                        let v = self.rvalue(fr, &mut st, rv, dty);
                        // an overflow that ranges cannot decide: partition here
                        if let (Rvalue::BinaryOp(op, _), Val::Agg(fs)) = (rv, &v) {
                            if matches!(op, BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow) {
                                if let (Val::Int(r), Val::Int(o)) = (&fs[0], &fs[1]) {
                                    if st.path.decide(o.bits[0]).is_none() {
                                        if let Some(parts) = self.split_overflow(fr, &mut st, rv, r, o) {
                                            let mut out = vec![];
                                            self.forks += 1;
                                            for (mut s2, val) in parts {
                                                self.write_place(fr, &mut s2, pl, val);
                                                out.extend(self.resume(fr, bb, si + 1, s2, stop));
                                            }
                                            return out;
                                        }
                                    }
                                }
                            }
                        }
                        self.write_place(fr, &mut st, pl, v);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let v = self.read_place(fr, &mut st, place);
                        let fs = match v {
                            Val::Agg(fs) | Val::Enum(_, fs) => fs,
                            _ => Rc::new(vec![]),
                        };
                        self.write_place(fr, &mut st, place, Val::Enum(variant_index.as_u32(), fs));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let src = self.operand(fr, &mut st, &c.src);
                            let dst = self.operand(fr, &mut st, &c.dst);
                            let n = self.operand(fr, &mut st, &c.count);
                            self.copy(&mut st, &src, &dst, &n);
                        }
                    },
                    _ => {}
                }
            }
            match self.term(fr, bb, st, stop) {
                Flow::Next(s, n) => {
                    st = s;
                    bb = n;
                }
                Flow::Done(v) => return v,
            }
        }
    }

    /// Continue in the middle of a block (after a partition inside it).
    fn resume(&mut self, fr: &Fr<'tcx>, bb: usize, from: usize, st: State, stop: Option<usize>) -> Vec<(State, End)> {
        let info = fr.info.clone();
        let body = &info.body;
        let mut st = st;
        let data = &body.basic_blocks[BasicBlock::from_usize(bb)];
        for s in &data.statements[from..] {
            if let StatementKind::Assign(b) = &s.kind {
                let dty = b.0.ty(&body.local_decls, self.tcx).ty;
                let v = self.rvalue(fr, &mut st, &b.1, dty);
                self.write_place(fr, &mut st, &b.0, v);
            }
        }
        match self.term(fr, bb, st, stop) {
            Flow::Next(s, n) => self.run(fr, n, s, stop),
            Flow::Done(v) => v,
        }
    }

    #[allow(clippy::type_complexity)]
    fn split_overflow(
        &mut self,
        fr: &Fr<'tcx>,
        st: &mut State,
        rv: &Rvalue<'tcx>,
        r: &IntV,
        o: &IntV,
    ) -> Option<Vec<(State, Val)>> {
        if let Rvalue::BinaryOp(op, ab) = rv {
            let ty = self.op_ty(fr, &ab.0);
            if ty.is_signed() {
                return None;
            }
            let w = self.width(ty)?;
            let a = self.operand(fr, st, &ab.0);
            let b = self.operand(fr, st, &ab.1);
            let (a, b) = (self.as_int(&a, w), self.as_int(&b, w));
            if a.rng.is_none() && b.rng.is_none() {
                return None;
            }
            let (al, ah) = a.range(&st.path);
            let (bl, bh) = b.range(&st.path);
            let m = mask(w);
            let (lo, hi) = match op {
                BinOp::AddWithOverflow => (al.checked_add(bl)?, ah.saturating_add(bh).min(m)),
                BinOp::SubWithOverflow => (al.saturating_sub(bh), ah.saturating_sub(bl)),
                BinOp::MulWithOverflow => (al.checked_mul(bl)?, ah.saturating_mul(bh).min(m)),
                _ => return None,
            };
            let mk = |path: Path, st: &State, rng: Option<(u128, u128)>, flag: Bit| {
                let mut s = st.clone();
                s.path = path;
                (
                    s,
                    Val::Agg(Rc::new(vec![
                        Val::Int(Rc::new(IntV { bits: r.bits.clone(), rng })),
                        boolv(flag),
                    ])),
                )
            };
            let mut out = vec![];
            for p in st.path.assume(o.bits[0], false) {
                out.push(mk(p, st, Some((lo, hi)), F));
            }
            for p in st.path.assume(o.bits[0], true) {
                out.push(mk(p, st, None, T));
            }
            return Some(out);
        }
        None
    }

    fn term(&mut self, fr: &Fr<'tcx>, bb: usize, mut st: State, stop: Option<usize>) -> Flow {
        let info = fr.info.clone();
        let body = &info.body;
        let data = &body.basic_blocks[BasicBlock::from_usize(bb)];
        let term = data.terminator();
        match &term.kind {
            TerminatorKind::Goto { target, .. } => Flow::Next(st, target.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } => Flow::Next(st, real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => Flow::Next(st, real_target.as_usize()),
            TerminatorKind::Drop { target, .. } => Flow::Next(st, target.as_usize()),
            TerminatorKind::Return => Flow::Done(vec![(st, End::Ret)]),
            TerminatorKind::Unreachable => Flow::Done(vec![(st, End::Dead)]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Flow::Done(vec![(st, End::Dead)]),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                if matches!(
                    **msg,
                    AssertKind::NullPointerDereference | AssertKind::MisalignedPointerDereference { .. } | AssertKind::InvalidEnumConstruction(_)
                ) {
                    // debug-build pointer sanity checks on safe references
                    return Flow::Next(st, target.as_usize());
                }
                let v = self.operand(fr, &mut st, cond);
                let b = match &v {
                    Val::Int(i) => i.bits[0],
                    _ => TOP,
                };
                match st.path.decide(b) {
                    Some(x) if x == *expected => Flow::Next(st, target.as_usize()),
                    Some(_) => Flow::Done(vec![(st, End::Panic(format!("{} in {}", assert_name(msg), info.name)))]),
                    None => {
                        let mut out = vec![];
                        for p in st.path.assume(b, !*expected) {
                            let mut s = st.clone();
                            s.path = p;
                            out.push((s, End::Panic(format!("{} in {}", assert_name(msg), info.name))));
                        }
                        for p in st.path.assume(b, *expected) {
                            let mut s = st.clone();
                            s.path = p;
                            out.extend(self.run(fr, target.as_usize(), s, stop));
                        }
                        Flow::Done(out)
                    }
                }
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = self.op_ty(fr, discr);
                let v = self.operand(fr, &mut st, discr);
                let w = self.width(ty).unwrap_or(64);
                let iv = self.as_int(&v, w);
                if let Some(k) = iv.konst(&st.path) {
                    let k = k & mask(w);
                    for (val, t) in targets.iter() {
                        if val & mask(w) == k {
                            return Flow::Next(st, t.as_usize());
                        }
                    }
                    return Flow::Next(st, targets.otherwise().as_usize());
                }
                // undecided: partition
                self.forks += 1;
                let mut arms: Vec<(usize, Bit, Vec<Path>)> = vec![];
                let mut rest = vec![st.path.clone()];
                let (lo, hi) = iv.range(&st.path);
                for (val, t) in targets.iter() {
                    let val = val & mask(w);
                    if val < lo || val > hi {
                        continue;
                    }
                    let c = conj(
                        iv.bits.iter().enumerate().map(|(i, b)| if (val >> i) & 1 == 1 { *b } else { not(*b) }).collect(),
                    );
                    let mut yes = vec![];
                    let mut no = vec![];
                    for p in &rest {
                        yes.extend(p.assume(c, true));
                        no.extend(p.assume(c, false));
                    }
                    if !yes.is_empty() {
                        arms.push((t.as_usize(), c, yes));
                    }
                    rest = no;
                }
                if !rest.is_empty() && !is_unreachable(body, targets.otherwise()) {
                    arms.push((targets.otherwise().as_usize(), TOP, rest));
                }
                let ip = info.ipdom[bb];
                let exit = body.basic_blocks.len();
                let inner_stop = match ip {
                    Some(x) if x < exit => Some(x),
                    _ => None,
                };
                let binary = arms.len() == 2
                    && arms.iter().all(|a| a.2.len() == 1)
                    && arms[0].1 != TOP
                    && targets.iter().count() == 1;
                let mut ends: Vec<Vec<(State, End)>> = vec![];
                let starts: Vec<Path> = arms.iter().map(|a| a.2[0].clone()).collect();
                for (t, _, ps) in &arms {
                    let mut outs = vec![];
                    for p in ps {
                        let mut s = st.clone();
                        s.path = p.clone();
                        outs.extend(self.run(fr, *t, s, inner_stop.or(stop)));
                    }
                    ends.push(outs);
                }
                // try an exact join at the post-dominator
                let joinable = |v: &Vec<(State, End)>, p: &Path| {
                    v.iter().filter(|x| matches!(x.1, End::Stop | End::Ret)).count() == 1
                        && v.iter().all(|x| match x.1 {
                            End::Stop | End::Ret => {
                                Rc::ptr_eq(&x.0.path.eqs, &p.eqs)
                                    && Rc::ptr_eq(&x.0.path.neqs, &p.neqs)
                                    && x.0.path.fuzzy == p.fuzzy
                            }
                            _ => true,
                        })
                };
                if binary && joinable(&ends[0], &starts[0]) && joinable(&ends[1], &starts[1]) {
                    let pick = |v: &Vec<(State, End)>| v.iter().position(|x| matches!(x.1, End::Stop | End::Ret)).unwrap();
                    let (i, j) = (pick(&ends[0]), pick(&ends[1]));
                    let same_end = matches!((&ends[0][i].1, &ends[1][j].1), (End::Stop, End::Stop) | (End::Ret, End::Ret));
                    // an arm that panicked narrows its path; only join when neither did
                    let clean = ends[0].len() == 1 && ends[1].len() == 1;
                    if same_end && clean {
                        let mut pair = [ends[0][i].0.clone(), ends[1][j].0.clone()];
                        if let (End::Stop, Some(ip)) = (&ends[0][i].1, inner_stop) {
                            for s in pair.iter_mut() {
                                for (l, live) in info.live[ip].iter().enumerate() {
                                    if !live {
                                        s.stack[fr.base + l] = Val::Uninit;
                                    }
                                }
                            }
                        }
                        if let Some(m) = join(&pair[0], &pair[1], arms[0].1, &st) {
                            self.joins += 1;
                            let e = ends[0][i].1.clone();
                            if let (End::Stop, Some(s)) = (&e, inner_stop) {
                                return Flow::Next(m, s);
                            }
                            return Flow::Done(vec![(m, e)]);
                        }
                    }
                }
                let mut out = vec![];
                let mut stopped = vec![];
                for (s, e) in ends.into_iter().flatten() {
                    match e {
                        End::Stop if inner_stop.is_some() => stopped.push(s),
                        _ => out.push((s, e)),
                    }
                }
                if stopped.len() > 600 {
                    return Flow::Done(vec![(stopped.pop().unwrap(), End::Budget(format!("too many partitions in {}", info.name)))]);
                }
                if out.is_empty() && stopped.len() == 1 {
                    return Flow::Next(stopped.pop().unwrap(), inner_stop.unwrap());
                }
                for s in stopped {
                    out.extend(self.run(fr, inner_stop.unwrap(), s, stop));
                }
                Flow::Done(out)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(fr, func);
                let vals: Vec<Val> = args.iter().map(|a| self.operand(fr, &mut st, &a.node)).collect();
                let tys: Vec<Ty<'tcx>> = args.iter().map(|a| self.op_ty(fr, &a.node)).collect();
                let dty = destination.ty(&body.local_decls, self.tcx).ty;
                let (def, gargs) = match fty.kind() {
                    ty::FnDef(d, g) => (*d, g.no_bound_vars().unwrap()),
                    _ => {
                        st.note("indirect call".into());
                        return match target {
                            Some(t) => {
                                self.write_place(fr, &mut st, destination, Val::Top);
                                Flow::Next(st, t.as_usize())
                            }
                            None => Flow::Done(vec![(st, End::Panic("indirect diverging call".into()))]),
                        };
                    }
                };
                let outs = self.do_call(def, gargs, vals, tys, dty, st);
                let mut res = vec![];
                let mut conts = vec![];
                for (s, e, v) in outs {
                    match e {
                        End::Ret => match target {
                            Some(_) => conts.push((s, v)),
                            None => res.push((s, End::Panic(format!("call of diverging {}", self.tcx.def_path_str(def))))),
                        },
                        e => res.push((s, e)),
                    }
                }
                if res.is_empty() && conts.len() == 1 {
                    let (mut s, v) = conts.pop().unwrap();
                    self.write_place(fr, &mut s, destination, v);
                    return Flow::Next(s, target.unwrap().as_usize());
                }
                for (mut s, v) in conts {
                    self.write_place(fr, &mut s, destination, v);
                    res.extend(self.run(fr, target.unwrap().as_usize(), s, stop));
                }
                Flow::Done(res)
            }
            _ => Flow::Done(vec![(st, End::Budget(format!("unsupported terminator in {}", info.name)))]),
        }
    }

    pub fn copy(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Val) {
        if let (Val::Ptr(s), Val::Ptr(d), Val::Int(n)) = (src, dst, n) {
            if let Some(n) = n.konst(&st.path) {
                let mut vals = vec![];
                for k in 0..n as u64 {
                    vals.push(st.read(s.base, &elem_path(s, k)));
                }
                for (k, v) in vals.into_iter().enumerate() {
                    let p = elem_path(d, k as u64);
                    st.write(d.base, &p, v);
                }
                return;
            }
        }
        st.note("copy of unknown extent".into());
        if let Val::Ptr(d) = dst {
            let mut p = (*d.path).clone();
            if let Some(Proj::Idx(_)) = p.last() {
                p.pop();
            }
            st.write(d.base, &p, Val::Top);
        }
    }

    fn havoc(&mut self, st: &mut State, vals: &[Val], tys: &[Ty<'tcx>]) {
        for (v, t) in vals.iter().zip(tys) {
            if let Val::Ptr(p) = v {
                let mutable = match t.kind() {
                    ty::Ref(_, _, m) => m.is_mut(),
                    ty::RawPtr(_, m) => m.is_mut(),
                    _ => true,
                };
                if mutable {
                    let path = p.path.clone();
                    st.write(p.base, &path, Val::Top);
                }
            }
        }
    }

    fn do_call(
        &mut self,
        def: DefId,
        gargs: ty::GenericArgsRef<'tcx>,
        vals: Vec<Val>,
        tys: Vec<Ty<'tcx>>,
        dty: Ty<'tcx>,
        mut st: State,
    ) -> Vec<(State, End, Val)> {
        let tcx = self.tcx;
        let inst = match Instance::try_resolve(tcx, self.env(), def, gargs) {
            Ok(Some(i)) => i,
            _ => {
                st.note(format!("unresolved call {}", tcx.def_path_str(def)));
                self.havoc(&mut st, &vals, &tys);
                return vec![(st, End::Ret, Val::Top)];
            }
        };
        if let Some(i) = tcx.intrinsic(inst.def_id()) {
            let name = i.name.to_string();
            let must = i.must_be_overridden;
            if let Some(r) = self.intrinsic(&name, inst, &vals, &tys, dty, &mut st) {
                return r.into_iter().map(|(s, v)| (s, End::Ret, v)).collect();
            }
            if must || self.fallback_body(inst).is_none() {
                st.note(format!("intrinsic {name}"));
                self.havoc(&mut st, &vals, &tys);
                return vec![(st, End::Ret, Val::Top)];
            }
            let b = self.fallback_body(inst).unwrap();
            self.bodies.insert(inst, Some(b));
            return self.call_inst(inst, vals, st);
        }
        let path = tcx.def_path_str(inst.def_id());
        let tpath = tcx.def_path_str(def);
        if let Some(r) = self.model(&path, &tpath, inst, &vals, &tys, dty, &mut st) {
            return r;
        }
        if dty.is_never() {
            return vec![(st, End::Panic(format!("{path}")), Val::Top)];
        }
        match inst.def {
            ty::InstanceKind::Item(_) | ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Clone(..)) => {
                if self.body(inst).is_some() {
                    return self.call_inst(inst, vals, st);
                }
            }
            _ => {}
        }
        if let ty::InstanceKind::Item(d) = inst.def {
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                // tuple struct / variant constructor
                if let ty::Adt(a, _) = dty.kind() {
                    if a.is_enum() {
                        let vi = a.variant_index_with_ctor_id(d);
                        return vec![(st, End::Ret, Val::Enum(vi.as_u32(), Rc::new(vals)))];
                    }
                    return vec![(st, End::Ret, Val::Agg(Rc::new(vals)))];
                }
            }
        }
        st.note(format!("no MIR for {path}"));
        self.havoc(&mut st, &vals, &tys);
        vec![(st, End::Ret, Val::Top)]
    }

    fn fallback_body(&mut self, inst: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if !tcx.is_mir_available(d) {
            return None;
        }
        let raw = tcx.optimized_mir(d);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env(),
            EarlyBinder::bind_unchecked(raw.clone()),
        );
        let ipdom = ipdoms(&body);
        let live = liveness(&body);
        Some(Rc::new(BodyInfo { body, ipdom, live, name: tcx.def_path_str(d) }))
    }

    fn intrinsic(
        &mut self,
        name: &str,
        inst: Instance<'tcx>,
        vals: &[Val],
        tys: &[Ty<'tcx>],
        dty: Ty<'tcx>,
        st: &mut State,
    ) -> Option<Vec<(State, Val)>> {
        let one = |v: Val, st: &State| Some(vec![(st.clone(), v)]);
        let w0 = tys.first().and_then(|t| self.width(*t));
        let signed = tys.first().map(|t| t.is_signed()).unwrap_or(false);
        match name {
            "bswap" => {
                let i = self.as_int(&vals[0], w0?);
                let mut bits = vec![];
                for c in i.bits.chunks(8).rev() {
                    bits.extend_from_slice(c);
                }
                one(int_bits(bits), st)
            }
            "bitreverse" => {
                let i = self.as_int(&vals[0], w0?);
                one(int_bits(i.bits.iter().rev().copied().collect()), st)
            }
            "rotate_left" | "rotate_right" => {
                let i = self.as_int(&vals[0], w0?);
                let w = i.w();
                let k = self.as_int(&vals[1], 32).konst(&st.path);
                one(
                    match k {
                        Some(k) => {
                            let k = (k as usize) % w;
                            let k = if name == "rotate_left" { k } else { (w - k) % w };
                            int_bits((0..w).map(|j| i.bits[(j + w - k) % w]).collect())
                        }
                        None => int_bits(vec![TOP; w]),
                    },
                    st,
                )
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let i = self.as_int(&vals[0], w0?);
                let w = i.w();
                one(
                    match i.konst(&st.path) {
                        Some(k) => int_const(
                            match name {
                                "ctpop" => k.count_ones(),
                                "ctlz" | "ctlz_nonzero" => k.leading_zeros() - (128 - w as u32),
                                _ => k.trailing_zeros().min(w as u32),
                            } as u128,
                            32,
                        ),
                        None => {
                            let r: Vec<Option<bool>> = i.bits.iter().map(|b| st.path.decide(*b)).collect();
                            let (lo, hi) = match name {
                                "ctpop" => (
                                    r.iter().filter(|x| **x == Some(true)).count(),
                                    r.iter().filter(|x| **x != Some(false)).count(),
                                ),
                                "cttz" | "cttz_nonzero" => (
                                    r.iter().position(|x| *x != Some(false)).unwrap_or(w),
                                    r.iter().position(|x| *x == Some(true)).unwrap_or(w),
                                ),
                                _ => (
                                    r.iter().rev().position(|x| *x != Some(false)).unwrap_or(w),
                                    r.iter().rev().position(|x| *x == Some(true)).unwrap_or(w),
                                ),
                            };
                            // partition by the first unknown bit for leading/trailing counts
                            if name != "ctpop" {
                                let mut out = vec![];
                                let mut cur = vec![st.path.clone()];
                                for k in 0..w {
                                    let b = if name.starts_with("ctlz") { i.bits[w - 1 - k] } else { i.bits[k] };
                                    let mut nxt = vec![];
                                    for p in cur {
                                        for q in p.assume(b, true) {
                                            let mut s = st.clone();
                                            s.path = q;
                                            out.push((s, int_const(k as u128, 32)));
                                        }
                                        nxt.extend(p.assume(b, false));
                                    }
                                    cur = nxt;
                                }
                                for p in cur {
                                    let mut s = st.clone();
                                    s.path = p;
                                    out.push((s, int_const(w as u128, 32)));
                                }
                                return Some(out);
                            }
                            Val::Int(Rc::new(IntV { bits: vec![TOP; 32], rng: Some((lo as u128, hi as u128)) }))
                        }
                    },
                    st,
                )
            }
            "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" | "wrapping_mul" | "unchecked_mul" => {
                let w = w0?;
                let (a, b) = (self.as_int(&vals[0], w), self.as_int(&vals[1], w));
                let op = match &name[name.len() - 3..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.arith(op, &a, &b, signed, &st.path).0;
                one(Val::Int(Rc::new(r)), st)
            }
            "saturating_add" | "saturating_sub" => {
                let w = w0?;
                let (a, b) = (self.as_int(&vals[0], w), self.as_int(&vals[1], w));
                if signed {
                    return None;
                }
                let (al, ah) = a.range(&st.path);
                let (bl, bh) = b.range(&st.path);
                let (lo, hi) = if name == "saturating_add" {
                    (al.saturating_add(bl).min(mask(w)), ah.saturating_add(bh).min(mask(w)))
                } else {
                    (al.saturating_sub(bh), ah.saturating_sub(bl))
                };
                if lo == hi {
                    return one(int_const(lo, w), st);
                }
                one(Val::Int(Rc::new(IntV { bits: vec![TOP; w], rng: Some((lo, hi)) })), st)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &name[..3] {
                    "add" => BinOp::AddWithOverflow,
                    "sub" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                let v = self.binop(st, op, &vals[0], &vals[1], tys[0], tys[1]);
                one(v, st)
            }
            "unchecked_shl" | "unchecked_shr" => {
                let a = self.as_int(&vals[0], w0?);
                let b = self.as_int(&vals[1], 32);
                let r = self.shift(name == "unchecked_shl", &a, &b, signed, &st.path);
                one(Val::Int(Rc::new(r)), st)
            }
            "unchecked_div" | "unchecked_rem" | "exact_div" | "disjoint_bitor" => {
                let op = match name {
                    "unchecked_rem" => BinOp::Rem,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::Div,
                };
                let v = self.binop(st, op, &vals[0], &vals[1], tys[0], tys[1]);
                one(v, st)
            }
            "three_way_compare" => {
                let v = self.binop(st, BinOp::Cmp, &vals[0], &vals[1], tys[0], tys[1]);
                one(v, st)
            }
            "transmute" | "transmute_unchecked" => {
                let v = self.transmute(&vals[0], tys[0], dty);
                one(v, st)
            }
            "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => {
                one(unit(), st)
            }
            "likely" | "unlikely" | "black_box" => one(vals[0].clone(), st),
            "ub_checks" | "contract_checks" => one(boolv(F), st),
            "overflow_checks" => one(boolv(T), st),
            "is_val_statically_known" => one(boolv(F), st),
            "size_of" | "min_align_of" | "align_of" => {
                let t = inst.args.type_at(0);
                let l = self.tcx.layout_of(self.env().as_query_input(t)).ok()?;
                let n = if name == "size_of" { l.size.bytes() } else { l.align.abi.bytes() };
                one(int_const(n as u128, 64), st)
            }
            "discriminant_value" => None,
            "read_via_copy" | "volatile_load" => match &vals[0] {
                Val::Ptr(p) => one(st.read(p.base, &p.path), st),
                _ => one(Val::Top, st),
            },
            "write_via_move" | "volatile_store" => match &vals[0] {
                Val::Ptr(p) => {
                    let p = p.clone();
                    st.write(p.base, &p.path, vals[1].clone());
                    one(unit(), st)
                }
                _ => None,
            },
            "copy_nonoverlapping" | "copy" => {
                self.copy(st, &vals[0], &vals[1], &vals[2]);
                one(unit(), st)
            }
            "offset" | "arith_offset" => {
                let v = self.ptr_offset(st, &vals[0], &vals[1], false);
                one(v, st)
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                if let (Val::Ptr(a), Val::Ptr(b)) = (&vals[0], &vals[1]) {
                    if let (Some(Proj::Idx(i)), Some(Proj::Idx(j))) = (a.path.last(), b.path.last()) {
                        if a.base == b.base && a.path.len() == b.path.len() {
                            return one(int_const((*i as i64 - *j as i64) as u64 as u128, 64), st);
                        }
                    }
                }
                one(Val::Top, st)
            }
            "aggregate_raw_ptr" => None,
            "raw_eq" => {
                let rd = |v: &Val| match v {
                    Val::Ptr(p) => st.read(p.base, &p.path),
                    _ => Val::Top,
                };
                let t = inst.args.type_at(0);
                let (mut a, mut b) = (vec![], vec![]);
                let (x, y) = (rd(&vals[0]), rd(&vals[1]));
                if self.flat_bits(&x, &mut a, t) && self.flat_bits(&y, &mut b, t) && a.len() == b.len() {
                    let e = conj(a.iter().zip(&b).map(|(x, y)| not(xor(*x, *y))).collect());
                    return one(boolv(e), st);
                }
                one(boolv(TOP), st)
            }
            "const_eval_select" => None,
            _ => None,
        }
    }

    /// Library functions whose MIR is out of reach of the domain, or whose
    /// meaning is simpler than their body.
    #[allow(clippy::too_many_arguments)]
    fn model(
        &mut self,
        path: &str,
        tpath: &str,
        inst: Instance<'tcx>,
        vals: &[Val],
        tys: &[Ty<'tcx>],
        dty: Ty<'tcx>,
        st: &mut State,
    ) -> Option<Vec<(State, End, Val)>> {
        let one = |v: Val, st: &State| Some(vec![(st.clone(), End::Ret, v)]);
        let p = path.trim_start_matches("std::").trim_start_matches("core::").trim_start_matches("alloc::");
        let tp = tpath.trim_start_matches("std::").trim_start_matches("core::").trim_start_matches("alloc::");
        if let Some(ix) = p.find("Box::<") {
            if ix == p.rfind("Box::<").unwrap_or(0) && p.ends_with(">::new") {
                let a = st.alloc(vals[0].clone());
                return one(boxed(Val::Ptr(Rc::new(Ptr { base: a, path: Rc::new(vec![]), start: 0, meta: Meta::None }))), st);
            }
        }
        if tp == "clone::Clone::clone" {
            // Clone of Copy data and of boxes of Copy data is a deep copy.
            if let Val::Ptr(q) = &vals[0] {
                let v = st.read(q.base, &q.path);
                let t = self.pointee(tys[0])?;
                if let Some(inner) = t.boxed_ty() {
                    if let Some(Val::Ptr(b)) = leaf_ptr(&v) {
                        let content = st.read(b.base, &b.path);
                        let _ = inner;
                        let a = st.alloc(content);
                        return one(boxed(Val::Ptr(Rc::new(Ptr { base: a, path: Rc::new(vec![]), start: 0, meta: Meta::None }))), st);
                    }
                }
                if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Array(..)) {
                    return one(v, st);
                }
            }
            return None;
        }
        if (tp == "ops::Deref::deref" || tp == "ops::DerefMut::deref_mut"
            || tp == "convert::AsRef::as_ref" || tp == "convert::AsMut::as_mut"
            || tp == "borrow::Borrow::borrow")
            && self.pointee(tys[0]).map(|t| t.is_box()).unwrap_or(false)
        {
            if let Val::Ptr(q) = &vals[0] {
                let v = st.read(q.base, &q.path);
                if let Some(x) = leaf_ptr(&v) {
                    return one(x, st);
                }
            }
            return None;
        }
        // the event model of Debug
        match p {
            "fmt::Formatter::<'a>::debug_struct" | "fmt::Formatter::<'_>::debug_struct" | "fmt::Formatter::debug_struct" => {
                Rc::make_mut(&mut st.trace).push(Event { what: "struct".into(), name: strv(&vals[1]), val: None });
                return one(Val::Opaque(77), st);
            }
            _ => {}
        }
        if p.starts_with("fmt::DebugStruct::<") || p.starts_with("fmt::DebugStruct::") || p.contains("fmt::builders::DebugStruct") {
            if p.ends_with("::field") {
                let shown = match &vals[2] {
                    Val::Ptr(q) => {
                        let t = match &q.meta {
                            Meta::Dyn(t) => t.clone(),
                            _ => "?".into(),
                        };
                        let mut v = st.read(q.base, &q.path);
                        let mut t = t;
                        // look through references
                        while t.starts_with('&') {
                            match v.clone() {
                                Val::Ptr(r) => {
                                    v = st.read(r.base, &r.path);
                                    t = t[1..].trim_start().to_string();
                                }
                                _ => break,
                            }
                        }
                        (t, v)
                    }
                    o => ("?".to_string(), o.clone()),
                };
                Rc::make_mut(&mut st.trace).push(Event { what: "field".into(), name: strv(&vals[1]), val: Some(shown) });
                return one(vals[0].clone(), st);
            }
            if p.ends_with("::finish") || p.ends_with("::finish_non_exhaustive") {
                let k = if p.ends_with("::finish") { "finish" } else { "finish_non_exhaustive" };
                Rc::make_mut(&mut st.trace).push(Event { what: k.into(), name: None, val: None });
                return one(Val::Opaque(78), st);
            }
        }
        if p.contains("debug_struct_field") && p.ends_with("_finish") && !p.contains("fields_finish") {
            // (f, name, n1, v1, n2, v2, ..)
            let mut t = vec![Event { what: "struct".into(), name: strv(&vals[1]), val: None }];
            let mut i = 2;
            while i + 1 < vals.len() {
                let shown = match &vals[i + 1] {
                    Val::Ptr(q) => {
                        let ty = match &q.meta {
                            Meta::Dyn(t) => t.clone(),
                            _ => "?".into(),
                        };
                        let v = st.read(q.base, &q.path);
                        (ty, v)
                    }
                    o => ("?".to_string(), o.clone()),
                };
                t.push(Event { what: "field".into(), name: strv(&vals[i]), val: Some(shown) });
                i += 2;
            }
            t.push(Event { what: "finish".into(), name: None, val: None });
            Rc::make_mut(&mut st.trace).extend(t);
            return one(Val::Opaque(78), st);
        }
        // slices
        if p.starts_with("slice::<impl [T]>::") {
            let f = &p["slice::<impl [T]>::".len()..];
            match f {
                "len" => {
                    if let Val::Ptr(q) = &vals[0] {
                        if let Meta::Len(l) = &q.meta {
                            return one(Val::Int(Rc::new(l.clone())), st);
                        }
                    }
                }
                "is_empty" => {
                    if let Val::Ptr(q) = &vals[0] {
                        if let Meta::Len(l) = &q.meta {
                            let z = IntV { bits: vec![F; 64], rng: None };
                            return one(boolv(self.eq(l, &z, &st.path)), st);
                        }
                    }
                }
                "reverse" => {
                    if let Some((q, n)) = slice_of(&vals[0], &st.path) {
                        let vs: Vec<Val> = (0..n).map(|k| st.read(q.base, &elem_path(&q, k))).collect();
                        for (k, v) in vs.into_iter().rev().enumerate() {
                            let pth = elem_path(&q, k as u64);
                            st.write(q.base, &pth, v);
                        }
                        return one(unit(), st);
                    }
                }
                "swap" => {
                    if let (Some((q, n)), Val::Int(a), Val::Int(b)) = (slice_of(&vals[0], &st.path), &vals[1], &vals[2]) {
                        if let (Some(a), Some(b)) = (a.konst(&st.path), b.konst(&st.path)) {
                            let (a, b) = (a as u64, b as u64);
                            if a >= n || b >= n {
                                return Some(vec![(st.clone(), End::Panic("slice::swap out of bounds".into()), Val::Top)]);
                            }
                            let (x, y) = (st.read(q.base, &elem_path(&q, a)), st.read(q.base, &elem_path(&q, b)));
                            st.write(q.base, &elem_path(&q, a), y);
                            st.write(q.base, &elem_path(&q, b), x);
                            return one(unit(), st);
                        }
                    }
                }
                "fill" => {
                    if let Some((q, n)) = slice_of(&vals[0], &st.path) {
                        for k in 0..n {
                            st.write(q.base, &elem_path(&q, k), vals[1].clone());
                        }
                        return one(unit(), st);
                    }
                }
                "copy_from_slice" | "clone_from_slice" => {
                    if let (Some((d, n)), Some((s, m))) = (slice_of(&vals[0], &st.path), slice_of(&vals[1], &st.path)) {
                        if n != m {
                            return Some(vec![(st.clone(), End::Panic("copy_from_slice length mismatch".into()), Val::Top)]);
                        }
                        let vs: Vec<Val> = (0..n).map(|k| st.read(s.base, &elem_path(&s, k))).collect();
                        for (k, v) in vs.into_iter().enumerate() {
                            let pth = elem_path(&d, k as u64);
                            st.write(d.base, &pth, v);
                        }
                        return one(unit(), st);
                    }
                }
                "split_at" | "split_at_mut" => {
                    if let (Val::Ptr(q), Val::Int(k)) = (&vals[0], &vals[1]) {
                        if let (Meta::Len(l), Some(k)) = (&q.meta, k.konst(&st.path)) {
                            let (lo, _) = l.range(&st.path);
                            let kk = IntV { bits: bitsof(k, 64), rng: None };
                            if lo >= k {
                                let rest = self.arith(BinOp::Sub, l, &kk, false, &st.path).0;
                                let a = Ptr { meta: Meta::Len(kk), ..(**q).clone() };
                                let b = Ptr { start: q.start + k as u64, meta: Meta::Len(rest), ..(**q).clone() };
                                return one(Val::Agg(Rc::new(vec![Val::Ptr(Rc::new(a)), Val::Ptr(Rc::new(b))])), st);
                            }
                            if let Some(n) = l.konst(&st.path) {
                                if n < k {
                                    return Some(vec![(st.clone(), End::Panic("split_at out of bounds".into()), Val::Top)]);
                                }
                            }
                        }
                    }
                }
                "get" | "get_mut" if tys.len() > 1 && tys[1].is_usize() => {
                    if let (Val::Ptr(q), Val::Int(k)) = (&vals[0], &vals[1]) {
                        if let (Meta::Len(l), Some(k)) = (&q.meta, k.konst(&st.path)) {
                            let (lo, hi) = l.range(&st.path);
                            if k < lo {
                                let e = Ptr {
                                    path: Rc::new(elem_path(q, k as u64)),
                                    start: 0,
                                    meta: Meta::None,
                                    base: q.base,
                                };
                                return one(Val::Enum(1, Rc::new(vec![Val::Ptr(Rc::new(e))])), st);
                            }
                            if k >= hi {
                                return one(Val::Enum(0, Rc::new(vec![])), st);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // indexing by ranges
        if (tp == "ops::Index::index" || tp == "ops::IndexMut::index_mut") && tys.len() == 2 {
            if let Val::Ptr(q) = &vals[0] {
                let len = match &q.meta {
                    Meta::Len(l) => Some(l.clone()),
                    _ => match self.pointee(tys[0]).map(|t| t.kind().clone()) {
                        Some(ty::Array(_, n)) => n
                            .try_to_target_usize(self.tcx)
                            .map(|n| IntV { bits: bitsof(n as u128, 64), rng: None }),
                        _ => None,
                    },
                };
                if let (Some(len), Val::Agg(fs)) = (len, &vals[1]) {
                    let t = tys[1].to_string();
                    let ks: Vec<Option<u128>> = fs
                        .iter()
                        .map(|f| match f {
                            Val::Int(i) => i.konst(&st.path),
                            _ => None,
                        })
                        .collect();
                    let nk = len.konst(&st.path);
                    let (llo, _) = len.range(&st.path);
                    let be: Option<(u128, Option<u128>)> = if t.ends_with("RangeFull") {
                        Some((0, nk))
                    } else if t.contains("RangeToInclusive<") {
                        ks.first().copied().flatten().map(|e| (0, Some(e + 1)))
                    } else if t.contains("RangeTo<") {
                        ks.first().copied().flatten().map(|e| (0, Some(e)))
                    } else if t.contains("RangeFrom<") {
                        ks.first().copied().flatten().map(|b| (b, nk))
                    } else if t.contains("RangeInclusive<") {
                        None
                    } else if t.contains("Range<") && ks.len() == 2 {
                        match (ks[0], ks[1]) {
                            (Some(a), Some(b)) => Some((a, Some(b))),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    if let Some((b, Some(e))) = be {
                        if b <= e && e <= llo {
                            let r = Ptr {
                                base: q.base,
                                path: q.path.clone(),
                                start: q.start + b as u64,
                                meta: Meta::Len(IntV { bits: bitsof(e - b, 64), rng: None }),
                            };
                            return one(Val::Ptr(Rc::new(r)), st);
                        }
                        if b > e || nk.map(|n| e > n).unwrap_or(false) {
                            return Some(vec![(st.clone(), End::Panic("slice range out of bounds".into()), Val::Top)]);
                        }
                    }
                }
            }
        }
        if tp == "iter::IntoIterator::into_iter" && vals.len() == 1 && p.contains("for I") {
            return one(vals[0].clone(), st);
        }
        match p {
            "mem::swap" => {
                if let (Val::Ptr(a), Val::Ptr(b)) = (&vals[0], &vals[1]) {
                    let (x, y) = (st.read(a.base, &a.path), st.read(b.base, &b.path));
                    st.write(a.base, &a.path, y);
                    st.write(b.base, &b.path, x);
                    return one(unit(), st);
                }
            }
            "mem::replace" | "ptr::replace" => {
                if let Val::Ptr(a) = &vals[0] {
                    let x = st.read(a.base, &a.path);
                    st.write(a.base, &a.path, vals[1].clone());
                    return one(x, st);
                }
            }
            "ptr::read" | "ptr::const_ptr::<impl *const T>::read" => {
                if let Val::Ptr(a) = &vals[0] {
                    return one(st.read(a.base, &a.path), st);
                }
            }
            "ptr::write" | "ptr::mut_ptr::<impl *mut T>::write" => {
                if let Val::Ptr(a) = &vals[0] {
                    st.write(a.base, &a.path, vals[1].clone());
                    return one(unit(), st);
                }
            }
            "mem::forget" | "mem::drop" => return one(unit(), st),
            _ => {}
        }
        // min / max on integers by range
        if (tp == "cmp::Ord::min" || tp == "cmp::Ord::max" || p == "cmp::min" || p == "cmp::max") && vals.len() == 2 {
            if let Some(w) = self.width(tys[0]) {
                let (a, b) = (self.as_int(&vals[0], w), self.as_int(&vals[1], w));
                let lt = self.lt(&b, &a, tys[0].is_signed(), &st.path); // b < a
                let min = tp.ends_with("min") || p.ends_with("min");
                match st.path.decide(lt) {
                    Some(x) => return one(if x == min { vals[1].clone() } else { vals[0].clone() }, st),
                    None => {}
                }
            }
        }
        // Default of ignored fields: an opaque value identified by its type
        if tp == "default::Default::default" && vals.is_empty() {
            if matches!(dty.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool) {
                return one(int_const(0, self.width(dty)?), st);
            }
        }
        let _ = inst;
        None
    }
}

enum Flow {
    Next(State, usize),
    Done(Vec<(State, End)>),
}

pub fn boxed(ptr: Val) -> Val {
    // Box { 0: Unique { pointer: NonNull { pointer }, _marker }, 1: alloc }
    let nn = Val::Agg(Rc::new(vec![ptr]));
    let un = Val::Agg(Rc::new(vec![nn, unit()]));
    Val::Agg(Rc::new(vec![un, unit()]))
}
pub fn leaf_ptr(v: &Val) -> Option<Val> {
    match v {
        Val::Ptr(_) => Some(v.clone()),
        Val::Agg(fs) if !fs.is_empty() => leaf_ptr(&fs[0]),
        _ => None,
    }
}
fn strv(v: &Val) -> Option<String> {
    match v {
        Val::Str(s) => Some(s.to_string()),
        _ => None,
    }
}
fn slice_of(v: &Val, p: &Path) -> Option<(Rc<Ptr>, u64)> {
    if let Val::Ptr(q) = v {
        if let Meta::Len(l) = &q.meta {
            return l.konst(p).map(|n| (q.clone(), n as u64));
        }
    }
    None
}
pub fn elem_path(p: &Ptr, k: u64) -> Vec<Proj> {
    let mut path = (*p.path).clone();
    match p.meta {
        Meta::Len(_) => path.push(Proj::Idx(p.start + k)),
        _ => match path.last_mut() {
            Some(Proj::Idx(i)) => *i += k,
            _ => {}
        },
    }
    path
}

pub fn bitsof(v: u128, w: usize) -> Vec<Bit> {
    (0..w).map(|i| if (v >> i) & 1 == 1 { T } else { F }).collect()
}

fn sext(v: u128, w: usize) -> i128 {
    if w >= 128 {
        v as i128
    } else if (v >> (w - 1)) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

fn konst_arith(op: BinOp, x: u128, y: u128, w: usize, signed: bool) -> (u128, bool) {
    let m = mask(w);
    if signed {
        let (a, b) = (sext(x, w), sext(y, w));
        let (r, o) = match op {
            BinOp::Add => a.overflowing_add(b),
            BinOp::Sub => a.overflowing_sub(b),
            _ => a.overflowing_mul(b),
        };
        let t = r as u128 & m;
        (t, o || sext(t, w) != r)
    } else {
        let (r, o) = match op {
            BinOp::Add => x.overflowing_add(y),
            BinOp::Sub => x.overflowing_sub(y),
            _ => x.overflowing_mul(y),
        };
        (r & m, o || r > m)
    }
}

fn ripple(a: &[Bit], b: &[Bit], cin: Bit) -> (Vec<Bit>, Bit) {
    let mut c = cin;
    let mut out = Vec::with_capacity(a.len());
    let mut sym = 0;
    for (x, y) in a.iter().zip(b) {
        let s = xor(*x, *y);
        out.push(xor(s, c));
        let nc = xor(and(*x, *y), and(c, s));
        if nc > T && nc != c {
            sym += 1;
        }
        c = if sym > 12 { TOP } else { nc };
    }
    (out, c)
}

fn assert_name(m: &AssertKind<Operand<'_>>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "index out of bounds".into(),
        AssertKind::Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
        AssertKind::OverflowNeg(_) => "negation overflow".into(),
        AssertKind::DivisionByZero(_) => "division by zero".into(),
        AssertKind::RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

fn is_unreachable(body: &Body<'_>, b: BasicBlock) -> bool {
    let d = &body.basic_blocks[b];
    d.statements.is_empty() && matches!(d.terminator().kind, TerminatorKind::Unreachable)
}

/// Immediate post-dominators on the normal-return control flow graph.
fn ipdoms(body: &Body<'_>) -> Vec<Option<usize>> {
    let n = body.basic_blocks.len();
    let exit = n;
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, d) in body.basic_blocks.iter_enumerated() {
        let i = i.as_usize();
        if d.is_cleanup {
            continue;
        }
        match &d.terminator().kind {
            TerminatorKind::Return => succ[i].push(exit),
            k => {
                for s in k.successors() {
                    if !body.basic_blocks[s].is_cleanup {
                        succ[i].push(s.as_usize());
                    }
                }
            }
        }
    }
    // restrict to blocks that can reach the exit
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, ss) in succ.iter().enumerate() {
        for s in ss {
            pred[*s].push(i);
        }
    }
    let mut reach = vec![false; n + 1];
    let mut order = vec![]; // DFS post-order on the reverse graph
    let mut stack = vec![(exit, 0usize)];
    reach[exit] = true;
    while let Some((x, i)) = stack.pop() {
        if i < pred[x].len() {
            stack.push((x, i + 1));
            let y = pred[x][i];
            if !reach[y] {
                reach[y] = true;
                stack.push((y, 0));
            }
        } else {
            order.push(x);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (k, x) in order.iter().enumerate() {
        num[*x] = k;
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[exit] = Some(exit);
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            if x == exit {
                continue;
            }
            let mut new: Option<usize> = None;
            for &s in &succ[x] {
                if !reach[s] || idom[s].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => s,
                    Some(o) => {
                        let (mut a, mut b) = (s, o);
                        while a != b {
                            while num[a] < num[b] {
                                a = idom[a].unwrap();
                            }
                            while num[b] < num[a] {
                                b = idom[b].unwrap();
                            }
                        }
                        a
                    }
                });
            }
            if new != idom[x] {
                idom[x] = new;
                changed = true;
            }
        }
    }
    idom.truncate(n);
    idom
}

// -------------------------------------------------------------------- joins

/// Exact join of the state where `c` holds (`a`) and the one where it does not
/// (`b`); None when some bit is not expressible.
fn join(a: &State, b: &State, c: Bit, start: &State) -> Option<State> {
    if a.stack.len() != b.stack.len() || a.trace != b.trace {
        return None;
    }
    let mut stack = Vec::with_capacity(a.stack.len());
    for (x, y) in a.stack.iter().zip(&b.stack) {
        stack.push(join_val(x, y, a, b, c)?);
    }
    let mut heap = Vec::with_capacity(a.heap.len());
    // allocations made inside the arms survive only when both made the same
    let n = if a.heap.len() == b.heap.len() { a.heap.len() } else { start.heap.len() };
    for (x, y) in a.heap.iter().zip(&b.heap).take(n) {
        heap.push(join_val(x, y, a, b, c)?);
    }
    if n < a.heap.len().max(b.heap.len()) && stack.iter().chain(&heap).any(|v| refers(v, n)) {
        return None;
    }
    let mut notes = a.notes.clone();
    for n in b.notes.iter() {
        if !notes.contains(n) {
            Rc::make_mut(&mut notes).push(n.clone());
        }
    }
    Some(State { stack, heap, path: start.path.clone(), trace: a.trace.clone(), notes })
}

/// Does the value point to a heap cell numbered `n` or above?
fn refers(v: &Val, n: usize) -> bool {
    match v {
        Val::Agg(fs) | Val::Enum(_, fs) => fs.iter().any(|f| refers(f, n)),
        Val::Ptr(p) => matches!(p.base, Alloc::Heap(i) if i >= n),
        _ => false,
    }
}

/// Backward liveness of locals; a local whose address is taken is always live.
fn liveness(body: &Body<'_>) -> Vec<Vec<bool>> {
    use rustc_middle::mir::visit::{MutatingUseContext, NonMutatingUseContext, PlaceContext, Visitor};
    struct Uses {
        gen_: Vec<bool>,
        kill: Vec<bool>,
        addr: Vec<bool>,
    }
    impl<'tcx> Visitor<'tcx> for Uses {
        fn visit_local(&mut self, l: Local, cx: PlaceContext, _: Location) {
            let i = l.as_usize();
            match cx {
                PlaceContext::NonUse(_) => {}
                PlaceContext::MutatingUse(MutatingUseContext::Store | MutatingUseContext::Call) => {
                    // whole-local definition (projections arrive as Projection uses)
                    if !self.gen_[i] {
                        self.kill[i] = true;
                    }
                }
                PlaceContext::NonMutatingUse(
                    NonMutatingUseContext::SharedBorrow | NonMutatingUseContext::FakeBorrow | NonMutatingUseContext::RawBorrow,
                )
                | PlaceContext::MutatingUse(MutatingUseContext::Borrow | MutatingUseContext::RawBorrow) => {
                    self.addr[i] = true;
                    if !self.kill[i] {
                        self.gen_[i] = true;
                    }
                }
                _ => {
                    if !self.kill[i] {
                        self.gen_[i] = true;
                    }
                }
            }
        }
    }
    let n = body.local_decls.len();
    let nb = body.basic_blocks.len();
    let mut addr = vec![false; n];
    let mut gens = vec![];
    let mut kills = vec![];
    for (bb, data) in body.basic_blocks.iter_enumerated() {
        let mut u = Uses { gen_: vec![false; n], kill: vec![false; n], addr: vec![false; n] };
        // statement by statement, reads before writes
        let mut visit = |f: &mut dyn FnMut(&mut Uses)| {
            let mut one = Uses { gen_: vec![false; n], kill: vec![false; n], addr: vec![false; n] };
            f(&mut one);
            let mut defs = one.kill.clone();
            // a read in the same statement wins over its definition
            for i in 0..n {
                if one.gen_[i] && !u.kill[i] {
                    u.gen_[i] = true;
                }
                if one.addr[i] {
                    u.addr[i] = true;
                }
                if one.gen_[i] {
                    defs[i] = false;
                }
                if defs[i] && !u.gen_[i] {
                    u.kill[i] = true;
                }
            }
        };
        for (si, s) in data.statements.iter().enumerate() {
            let loc = Location { block: bb, statement_index: si };
            visit(&mut |o: &mut Uses| {
                if let StatementKind::Assign(b) = &s.kind {
                    o.visit_rvalue(&b.1, loc);
                    o.visit_place(&b.0, PlaceContext::MutatingUse(MutatingUseContext::Store), loc);
                } else {
                    o.visit_statement(s, loc);
                }
            });
        }
        let loc = Location { block: bb, statement_index: data.statements.len() };
        visit(&mut |o: &mut Uses| {
            if let TerminatorKind::Call { func, args, destination, .. } = &data.terminator().kind {
                o.visit_operand(func, loc);
                for a in args.iter() {
                    o.visit_operand(&a.node, loc);
                }
                o.visit_place(destination, PlaceContext::MutatingUse(MutatingUseContext::Call), loc);
            } else {
                o.visit_terminator(data.terminator(), loc);
            }
        });
        for i in 0..n {
            addr[i] |= u.addr[i];
        }
        gens.push(u.gen_);
        kills.push(u.kill);
    }
    let mut live = gens.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for bb in (0..nb).rev() {
            let data = &body.basic_blocks[BasicBlock::from_usize(bb)];
            let succ: Vec<usize> = data.terminator().successors().map(|x| x.as_usize()).collect();
            for s in succ {
                for i in 0..n {
                    if live[s][i] && !kills[bb][i] && !live[bb][i] {
                        live[bb][i] = true;
                        changed = true;
                    }
                }
            }
        }
    }
    for l in live.iter_mut() {
        l[0] = true;
        for i in 0..n {
            l[i] |= addr[i];
        }
    }
    live
}

fn join_bit(x: Bit, y: Bit, pa: &Path, pb: &Path, c: Bit) -> Option<Bit> {
    if x == y {
        return Some(x);
    }
    if x == TOP || y == TOP {
        return Some(TOP);
    }
    let (rx, ry) = (pa.reduce(x), pb.reduce(y));
    if rx == ry {
        return Some(rx);
    }
    if pb.reduce(x) == ry {
        return Some(x);
    }
    if pa.reduce(y) == rx {
        return Some(y);
    }
    if xor(rx, ry) == T {
        return Some(xor(ry, c));
    }
    if rx == T && dom::is_const(ry).is_none() {
        // c ? 1 : y  ==  c | y
        let r = or(c, ry);
        if dom::is_linear(r) {
            return Some(r);
        }
    }
    None
}

fn join_val(x: &Val, y: &Val, a: &State, b: &State, c: Bit) -> Option<Val> {
    if let (Val::Agg(p), Val::Agg(q)) = (x, y) {
        if Rc::ptr_eq(p, q) {
            return Some(x.clone());
        }
    }
    if let (Val::Int(p), Val::Int(q)) = (x, y) {
        if Rc::ptr_eq(p, q) {
            return Some(x.clone());
        }
    }
    match (x, y) {
        (Val::Int(p), Val::Int(q)) if p.w() == q.w() => {
            let mut bits = Vec::with_capacity(p.w());
            for (m, n) in p.bits.iter().zip(&q.bits) {
                bits.push(join_bit(*m, *n, &a.path, &b.path, c)?);
            }
            let rng = match (p.rng, q.rng) {
                (Some(r), Some(s)) => Some((r.0.min(s.0), r.1.max(s.1))),
                _ => None,
            };
            Some(Val::Int(Rc::new(IntV { bits, rng })))
        }
        (Val::Agg(p), Val::Agg(q)) if p.len() == q.len() => {
            let mut fs = Vec::with_capacity(p.len());
            for (m, n) in p.iter().zip(q.iter()) {
                fs.push(join_val(m, n, a, b, c)?);
            }
            Some(Val::Agg(Rc::new(fs)))
        }
        (Val::Enum(v, p), Val::Enum(u, q)) if v == u && p.len() == q.len() => {
            let mut fs = Vec::with_capacity(p.len());
            for (m, n) in p.iter().zip(q.iter()) {
                fs.push(join_val(m, n, a, b, c)?);
            }
            Some(Val::Enum(*v, Rc::new(fs)))
        }
        (Val::Uninit, o) | (o, Val::Uninit) => {
            // initialised on one side only: not live afterwards
            let _ = o;
            Some(Val::Uninit)
        }
        (p, q) if p == q => Some(p.clone()),
        (Val::Top, _) | (_, Val::Top) => Some(Val::Top),
        _ => None,
    }
}
