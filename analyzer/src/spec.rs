//! The obligations: for every fixture declaration, what each generated
//! function must return and leave behind, as bit forms over its inputs.

use crate::dom::{self, and, conj, not, var, xor, Bit, Path, F, T, TOP};
use crate::eng::{self, boolv, boxed, int_bits, int_const, leaf_ptr, End, Eng, IntV, Meta, Proj, Ptr, State, Val};
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::def_id::DefId;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub enum FTy {
    Uint(usize),
    Int(usize),
    Bool,
    Bytes(usize),
    /// custom type whose from_bits is leaf[i] = param[perm[i]] ^ xor[i]
    Map { lw: usize, perm: Vec<usize>, xor: u128 },
    Flag { w: usize, base: usize, vals: Vec<u128> },
}

impl FTy {
    fn leaf(&self) -> usize {
        match self {
            FTy::Uint(w) | FTy::Int(w) => *w,
            FTy::Bool => 1,
            FTy::Bytes(n) => 8 * n,
            FTy::Map { lw, .. } => *lw,
            FTy::Flag { w, .. } => *w,
        }
    }
    fn is_custom(&self) -> bool {
        matches!(self, FTy::Map { .. } | FTy::Flag { .. })
    }
    fn ext(&self, fb: &[Bit], lw: usize, sign: bool) -> Vec<Bit> {
        let mut v = fb.to_vec();
        let fill = if sign { *fb.last().unwrap_or(&F) } else { F };
        v.resize(lw, fill);
        v.truncate(lw);
        v
    }
    /// leaf bits of the value a getter must return for field bits `fb`
    fn decode(&self, fb: &[Bit]) -> Vec<Bit> {
        match self {
            FTy::Uint(w) => self.ext(fb, *w, false),
            FTy::Int(w) => self.ext(fb, *w, true),
            FTy::Bool => vec![fb[0]],
            FTy::Bytes(n) => self.ext(fb, 8 * n, false),
            FTy::Map { lw, perm, xor: x } => {
                let p = self.ext(fb, *lw, false);
                (0..*lw).map(|i| if (x >> i) & 1 == 1 { not(p[perm[i]]) } else { p[perm[i]] }).collect()
            }
            FTy::Flag { w, .. } => self.ext(fb, *w, false),
        }
    }
    /// bits (untruncated) a value stores
    fn encode(&self, leaf: &[Bit]) -> Vec<Bit> {
        match self {
            FTy::Map { lw, perm, xor: x } => {
                let mut p = vec![F; *lw];
                for i in 0..*lw {
                    p[perm[i]] = if (x >> i) & 1 == 1 { not(leaf[i]) } else { leaf[i] };
                }
                p
            }
            _ => leaf.to_vec(),
        }
    }
    /// what field bits become after from_bits / into_bits of the field type
    fn canon(&self, fb: &[Bit]) -> Vec<Bit> {
        match self {
            FTy::Flag { base, vals, .. } => {
                let w = fb.len();
                let mut out: Vec<Bit> = (0..w).map(|k| if (vals[*base] >> k) & 1 == 1 { T } else { F }).collect();
                for (i, v) in vals.iter().enumerate() {
                    if i == *base || (w < 128 && *v >> w != 0) {
                        continue;
                    }
                    let ind = conj(fb.iter().enumerate().map(|(k, b)| if (v >> k) & 1 == 1 { *b } else { not(*b) }).collect());
                    for k in 0..w {
                        if (v >> k) & 1 != (vals[*base] >> k) & 1 {
                            out[k] = xor(out[k], ind);
                        }
                    }
                }
                out
            }
            _ => fb.to_vec(),
        }
    }
}

pub struct Field {
    pub name: String,
    pub off: usize,
    pub w: usize,
    pub ty: FTy,
    pub access: String,
    pub reserved: bool,
    pub default: Option<u128>,
    /// wide array defaults
    pub default_bits: Option<Vec<Bit>>,
}
impl Field {
    fn readable(&self) -> bool {
        !self.reserved && (self.access == "rw" || self.access == "ro")
    }
    fn writable(&self) -> bool {
        !self.reserved && (self.access == "rw" || self.access == "wo")
    }
    fn bit_readable(&self) -> bool {
        (self.reserved && self.access != "na") || self.readable()
    }
}

pub struct St {
    pub id: String,
    pub name: String,
    pub arr: bool,
    pub heap: bool,
    pub bits: usize,
    pub fields: Vec<Field>,
    pub from_le: bool,
    pub into_le: bool,
    pub write_le: bool,
    pub ignored: Vec<String>,
    pub range_mode: String,
    pub debug_name: String,
    pub lits: Vec<u128>,
}

fn u(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn big(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse::<u128>().unwrap(),
        v => v.as_u64().unwrap() as u128,
    }
}

fn parse_ty(v: &Value) -> FTy {
    match v["k"].as_str().unwrap() {
        "uint" => FTy::Uint(u(&v["w"])),
        "int" => FTy::Int(u(&v["w"])),
        "bool" => FTy::Bool,
        "bytes" => FTy::Bytes(u(&v["n"])),
        "map" => {
            let lw = u(&v["lw"]);
            let perm = match v["perm"].as_array() {
                Some(a) => a.iter().map(u).collect(),
                None => (0..lw).collect(),
            };
            FTy::Map { lw, perm, xor: if v["xor"].is_null() { 0 } else { big(&v["xor"]) } }
        }
        "flag" => FTy::Flag {
            w: u(&v["w"]),
            base: u(&v["base"]),
            vals: v["vals"].as_array().unwrap().iter().map(big).collect(),
        },
        k => panic!("type kind {k}"),
    }
}

fn parse_struct(v: &Value) -> St {
    let fields = v["fields"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| {
            let w = u(&f["w"]);
            let (default, default_bits) = if f["default"].is_null() {
                (None, None)
            } else if let Some(s) = f["default"].as_str().filter(|s| s.starts_with("0b")) {
                // bit string, most significant first
                let bits: Vec<Bit> = s[2..].bytes().rev().map(|c| if c == b'1' { T } else { F }).collect();
                (Some(0), Some(bits))
            } else {
                (Some(big(&f["default"])), None)
            };
            Field {
                name: f["name"].as_str().unwrap().into(),
                off: u(&f["off"]),
                w,
                ty: parse_ty(&f["ty"]),
                access: f["access"].as_str().unwrap_or("rw").into(),
                reserved: f["reserved"].as_bool().unwrap_or(false),
                default,
                default_bits,
            }
        })
        .collect();
    St {
        id: v["id"].as_str().unwrap().into(),
        name: v["name"].as_str().unwrap().into(),
        arr: v["arr"].as_bool().unwrap(),
        heap: v["heap"].as_bool().unwrap_or(false),
        bits: u(&v["bits"]),
        fields,
        from_le: v["from_endian"] == "little",
        into_le: v["into_endian"] == "little",
        write_le: v["write_endian"] == "little",
        ignored: v["ignored"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        range_mode: v["range_mode"].as_str().unwrap_or("edges").into(),
        debug_name: v["debug_name"].as_str().unwrap_or(v["name"].as_str().unwrap()).into(),
        lits: v["lits"].as_array().map(|a| a.iter().map(big).collect()).unwrap_or_default(),
    }
}

// ---------------------------------------------------------------- expectations

#[derive(Clone)]
pub enum Ret {
    Unit,
    Bits(Vec<Bit>),
    /// a bitfield (or builder) value with these logical bits
    Me(Vec<Bit>),
    Ok(Box<Ret>),
    Err,
    /// a bitflag value: variant decided by these bits
    Flag(FTy, Vec<Bit>),
    Any,
}

#[derive(Clone)]
pub enum Arg {
    Me(Vec<Bit>),
    Val(Val),
    Slice(Vec<Bit>, IntV),
    Fmt,
}

pub struct Obl {
    pub prop: &'static str,
    pub extra: Vec<&'static str>,
    pub what: String,
    pub def: DefId,
    pub args: Vec<Arg>,
    pub pre: Vec<(Bit, bool)>,
    pub rng: Vec<(IntV, String)>,
    pub ret: Ret,
    pub post: Option<Vec<Bit>>,
    pub slice: Option<Vec<Bit>>,
    /// bits of self the operation may not touch / may not reveal (positions)
    pub prot: Option<Vec<usize>>,
    /// Debug events
    pub trace: Option<Vec<(String, Vec<Bit>, bool)>>,
    /// an undecided comparison is tolerated (open-ended class)
    pub soft: bool,
}

pub struct Me<'tcx> {
    pub st: St,
    pub ty: Ty<'tcx>,
    pub def: DefId,
    pub fns: HashMap<String, DefId>,
    pub bfns: HashMap<String, DefId>,
    pub consts: HashMap<String, DefId>,
    /// (trait name, type args) -> methods
    pub impls: Vec<(String, String, HashMap<String, DefId>)>,
    pub bimpls: Vec<(String, String, HashMap<String, DefId>)>,
    pub backing: usize,
    pub nfields: usize,
}

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub eng: Eng<'tcx>,
    pub props: BTreeSet<String>,
    pub out: Vec<Value>,
    pub counts: BTreeMap<String, BTreeMap<String, u64>>,
    pub fns: BTreeMap<String, BTreeSet<String>>,
    pub absent: BTreeSet<String>,
    pub deadline: Option<std::time::Instant>,
    pub skipped: usize,
}

pub fn fresh(name: &str, n: usize) -> Vec<Bit> {
    (0..n).map(|i| var(format!("{name}{i}"))).collect()
}

thread_local! {
    static NAMED: std::cell::RefCell<HashMap<(String, usize), Vec<Bit>>> = Default::default();
}
/// Named input bits, shared between obligations so that forms are reused.
pub fn named(name: &str, n: usize) -> Vec<Bit> {
    NAMED.with(|m| {
        let mut m = m.borrow_mut();
        let v = m.entry((name.to_string(), 0)).or_default();
        while v.len() < n {
            let k = v.len();
            v.push(var(format!("{name}{k}")));
        }
        v[..n].to_vec()
    })
}

pub fn kbits(v: u128, n: usize) -> Vec<Bit> {
    (0..n).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
}

fn bytes_val(bits: &[Bit]) -> Val {
    Val::Agg(Rc::new(bits.chunks(8).map(|c| int_bits(c.to_vec())).collect()))
}

/// leaf bits in declaration order
pub fn leaves(v: &Val, st: &State, out: &mut Vec<Bit>) -> bool {
    leaves_at(v, st, out, 0)
}

fn leaves_at(v: &Val, st: &State, out: &mut Vec<Bit>, depth: usize) -> bool {
    if depth > 24 {
        return false;
    }
    match v {
        Val::Int(i) => {
            for b in &i.bits {
                out.push(*b);
            }
            true
        }
        Val::Agg(fs) => fs.iter().all(|f| leaves_at(f, st, out, depth + 1)),
        Val::Ptr(p) => {
            let x = st.read(p.base, &p.path);
            leaves_at(&x, st, out, depth + 1)
        }
        _ => false,
    }
}

impl<'tcx> Me<'tcx> {
    fn enc(&self, tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, bits: &[Bit], st: &mut State) -> Val {
        if ty == self.ty {
            let raw = if self.st.arr {
                let b = bytes_val(bits);
                if self.st.heap {
                    let a = st.alloc(b);
                    boxed(Val::Ptr(Rc::new(Ptr { base: a, path: Rc::new(vec![]), start: 0, meta: Meta::None })))
                } else {
                    b
                }
            } else {
                int_bits(bits.to_vec())
            };
            let mut fs = vec![];
            for i in 0..self.nfields {
                fs.push(if i == self.backing { raw.clone() } else { Val::Opaque(1000 + i as u64) });
            }
            return Val::Agg(Rc::new(fs));
        }
        if let ty::Adt(a, args) = ty.kind() {
            if a.is_struct() {
                let fs = a
                    .non_enum_variant()
                    .fields
                    .iter()
                    .map(|f| {
                        let t = f.ty(tcx, args).skip_norm_wip();
                        self.enc(tcx, t, bits, st)
                    })
                    .collect();
                return Val::Agg(Rc::new(fs));
            }
        }
        Val::Uninit
    }

    /// (logical bits, the other fields)
    fn dec(&self, tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, v: &Val, st: &State) -> Option<(Vec<Bit>, Vec<Val>)> {
        if ty == self.ty {
            if let Val::Agg(fs) = v {
                let raw = fs.get(self.backing)?;
                let mut bits = vec![];
                let raw = if self.st.heap {
                    match leaf_ptr(raw)? {
                        Val::Ptr(p) => st.read(p.base, &p.path),
                        _ => return None,
                    }
                } else {
                    raw.clone()
                };
                if !leaves(&raw, st, &mut bits) || bits.len() != self.st.bits {
                    return None;
                }
                let others = fs.iter().enumerate().filter(|(i, _)| *i != self.backing).map(|(_, f)| f.clone()).collect();
                return Some((bits, others));
            }
            return None;
        }
        if let (ty::Adt(a, args), Val::Agg(fs)) = (ty.kind(), v) {
            if a.is_struct() {
                for (f, x) in a.non_enum_variant().fields.iter().zip(fs.iter()) {
                    let t = f.ty(tcx, args).skip_norm_wip();
                    if let Some(r) = self.dec(tcx, t, x, st) {
                        return Some(r);
                    }
                }
            }
        }
        None
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Verdict {
    Ok,
    Bad(String),
    Unknown(String),
}

/// A concrete point of a path on which `want` (if given) is 1.
struct Point {
    asg: HashMap<u32, bool>,
}

impl<'tcx> Cx<'tcx> {
    fn point(&self, p: &Path, want: Option<Bit>, rng: &[(IntV, String)]) -> Option<Point> {
        let paths = match want {
            Some(b) => p.assume(b, true),
            None => vec![p.clone()],
        };
        for q in &paths {
            if let Some(asg) = dom::sample(q, want, |ev| {
                rng.iter().all(|(iv, _)| match iv.rng {
                    Some((l, h)) => {
                        let v = iv.bits.iter().enumerate().fold(0u128, |a, (i, b)| a | ((ev(*b) as u128) << i));
                        v >= l && v <= h
                    }
                    None => true,
                })
            }, rng.iter().filter_map(|(iv, _)| iv.rng.map(|r| (iv.bits.clone(), r))).collect()) {
                return Some(Point { asg });
            }
        }
        None
    }

    fn show_point(&self, pt: &Point, o: &Obl) -> String {
        let ev = |b: Bit| dom::eval(b, &pt.asg);
        let hex = |bits: &[Bit]| {
            let mut s = String::new();
            let mut n = bits.len().div_ceil(4);
            while n > 0 {
                n -= 1;
                let mut d = 0;
                for k in 0..4 {
                    if let Some(b) = bits.get(4 * n + k) {
                        d |= (ev(*b) as u32) << k;
                    }
                }
                s.push(std::char::from_digit(d, 16).unwrap());
            }
            format!("0x{s}")
        };
        let mut parts = vec![];
        for a in &o.args {
            match a {
                Arg::Me(b) => parts.push(format!("self.bits={}", hex(b))),
                Arg::Val(v) => {
                    let mut b = vec![];
                    let st = State::new();
                    match v {
                        Val::Enum(i, _) => parts.push(format!("variant#{i}")),
                        _ => {
                            if leaves(v, &st, &mut b) {
                                parts.push(format!("arg={}", hex(&b)))
                            } else {
                                parts.push("arg=?".into())
                            }
                        }
                    }
                }
                Arg::Slice(b, n) => {
                    let l = n.bits.iter().enumerate().fold(0u128, |a, (i, b)| a | ((ev(*b) as u128) << i));
                    parts.push(format!("slice.len={l} bytes(le)={}", hex(b)))
                }
                Arg::Fmt => {}
            }
        }
        parts.join(" ")
    }

    fn cmp(&self, exp: &[Bit], act: &[Bit], st: &State, what: &str, o: &Obl, only: Option<&[usize]>) -> Verdict {
        if exp.len() != act.len() {
            return Verdict::Bad(format!("{what}: {} bits where {} were expected", act.len(), exp.len()));
        }
        let mut unk = None;
        for i in 0..exp.len() {
            if let Some(m) = only {
                if !m.contains(&i) {
                    continue;
                }
            }
            let d = st.path.reduce(xor(st.path.reduce(exp[i]), st.path.reduce(act[i])));
            if d == F {
                continue;
            }
            if d == TOP {
                unk.get_or_insert(format!("{what}: bit {i} not decided"));
                continue;
            }
            match self.point(&st.path, Some(d), &o.rng) {
                Some(pt) => {
                    return Verdict::Bad(format!(
                        "{what}: bit {i} is {} where {} was expected [{}]",
                        dom::show(act[i]),
                        dom::show(exp[i]),
                        self.show_point(&pt, o)
                    ))
                }
                None => {
                    unk.get_or_insert(format!("{what}: bit {i} differs ({}) on an unproved path {}", dom::show(d), st.path.show()));
                }
            }
        }
        match unk {
            Some(s) => Verdict::Unknown(s),
            None => Verdict::Ok,
        }
    }

    fn ret_ok(&self, me: &Me<'tcx>, ret: &Ret, v: &Val, ty: Ty<'tcx>, st: &State, o: &Obl) -> (Verdict, Option<Vec<Val>>) {
        let bad_if_real = |msg: String| match self.point(&st.path, None, &o.rng) {
            Some(pt) => Verdict::Bad(format!("{msg} [{}]", self.show_point(&pt, o))),
            None => Verdict::Unknown(msg),
        };
        match ret {
            Ret::Any => (Verdict::Ok, None),
            Ret::Unit => (Verdict::Ok, None),
            Ret::Bits(b) => {
                let mut a = vec![];
                // references are looked through by `leaves`
                if !leaves(v, st, &mut a) {
                    return (Verdict::Unknown("returned value not understood".into()), None);
                }
                (self.cmp(b, &a, st, "returned value", o, None), None)
            }
            Ret::Me(b) => match me.dec(self.tcx, ty, v, st) {
                Some((a, oth)) => (self.cmp(b, &a, st, "returned bitfield", o, None), Some(oth)),
                None => (Verdict::Unknown("returned bitfield not understood".into()), None),
            },
            Ret::Ok(inner) => match v {
                Val::Enum(0, fs) => {
                    let t = match ty.kind() {
                        ty::Adt(_, args) => args.type_at(0),
                        _ => ty,
                    };
                    let x = fs.first().cloned().unwrap_or(eng::unit());
                    self.ret_ok(me, inner, &x, t, st, o)
                }
                Val::Enum(_, _) => (bad_if_real("returned Err where Ok was expected".into()), None),
                _ => (Verdict::Unknown("result not understood".into()), None),
            },
            Ret::Err => match v {
                Val::Enum(1, _) => (Verdict::Ok, None),
                Val::Enum(_, _) => (bad_if_real("returned Ok where Err was expected".into()), None),
                _ => (Verdict::Unknown("result not understood".into()), None),
            },
            Ret::Flag(FTy::Flag { base, vals, .. }, fb) => match v {
                Val::Enum(k, _) => {
                    let k = *k as usize;
                    let ind = |v: u128| {
                        if fb.len() < 128 && v >> fb.len() != 0 {
                            return F;
                        }
                        conj(fb.iter().enumerate().map(|(i, b)| if (v >> i) & 1 == 1 { *b } else { not(*b) }).collect())
                    };
                    if k >= vals.len() {
                        return (bad_if_real("unknown variant".into()), None);
                    }
                    if k != *base {
                        let r = st.path.reduce(ind(vals[k]));
                        return match r {
                            T => (Verdict::Ok, None),
                            TOP => (Verdict::Unknown("variant condition".into()), None),
                            r => match self.point(&st.path, Some(not(r)), &o.rng) {
                                Some(pt) => (
                                    Verdict::Bad(format!("returned variant #{k} for bits that are not its value [{}]", self.show_point(&pt, o))),
                                    None,
                                ),
                                None => (Verdict::Unknown("variant condition".into()), None),
                            },
                        };
                    }
                    for (j, v) in vals.iter().enumerate() {
                        if j == *base {
                            continue;
                        }
                        match st.path.reduce(ind(*v)) {
                            F => {}
                            TOP => return (Verdict::Unknown("variant condition".into()), None),
                            r => match self.point(&st.path, Some(r), &o.rng) {
                                Some(pt) => {
                                    return (
                                        Verdict::Bad(format!("returned the base variant for the value of variant #{j} [{}]", self.show_point(&pt, o))),
                                        None,
                                    )
                                }
                                None => return (Verdict::Unknown("variant condition".into()), None),
                            },
                        }
                    }
                    (Verdict::Ok, None)
                }
                _ => (Verdict::Unknown("enum not understood".into()), None),
            },
            Ret::Flag(..) => unreachable!(),
        }
    }

    fn tally(&mut self, prop: &str, what: &str) {
        *self.counts.entry(prop.to_string()).or_default().entry(what.to_string()).or_default() += 1;
    }

    fn report(&mut self, prop: &str, me: &Me<'tcx>, o: &Obl, v: &Verdict, notes: &[String]) {
        let name = self.tcx.def_path_str(o.def);
        self.fns.entry(prop.to_string()).or_default().insert(name.clone());
        match v {
            Verdict::Ok => self.tally(prop, "ok"),
            Verdict::Bad(m) | Verdict::Unknown(m) => {
                let kind = if matches!(v, Verdict::Bad(_)) { "violation" } else { "undecided" };
                self.tally(prop, kind);
                let n = self.counts[prop][kind];
                if n <= 400 {
                    let sp = self.tcx.def_span(o.def);
                    let loc = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
                    self.out.push(json!({"prop": prop, "kind": kind, "struct": me.st.id, "fn": name,
                        "case": o.what, "msg": m, "loc": loc, "notes": notes}));
                }
            }
        }
    }

    /// One obligation; a construct the interpreter cannot handle at all is "undecided", never a crash.
    pub fn check(&mut self, me: &Me<'tcx>, o: Obl) {
        if self.expired() {
            self.skipped += 1;
            return;
        }
        let keep = &o;
        let t0 = std::time::Instant::now();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.check_inner(me, keep)));
        if t0.elapsed().as_millis() > 500 && std::env::var("BFCHECK_TIME").is_ok() {
            eprintln!("slow {} {:?} {} {:?} {}", me.st.id, keep.def, keep.what, t0.elapsed(), dom::size());
        }
        if r.is_err() {
            self.eng.depth = 0;
            let ps: Vec<&str> = std::iter::once(keep.prop).chain(keep.extra.iter().copied()).collect();
            for p in ps {
                if self.props.contains(p) {
                    self.report(p, me, keep, &Verdict::Unknown("analyser could not interpret this function".into()), &[]);
                }
            }
        }
    }

    pub fn expired(&self) -> bool {
        self.deadline.is_some_and(|d| std::time::Instant::now() > d)
    }

    fn check_inner(&mut self, me: &Me<'tcx>, o: &Obl) {
        let has_ign = !me.st.ignored.is_empty();
        let mut wanted: Vec<&str> = vec![];
        if self.props.contains(o.prop) {
            wanted.push(o.prop);
        }
        for e in &o.extra {
            if self.props.contains(*e) {
                wanted.push(e);
            }
        }
        let want_prot = o.prot.is_some() && self.props.contains("P11");
        let want_panic = self.props.contains("P16");
        let want_ign = has_ign && self.props.contains("P25");
        if wanted.is_empty() && !want_prot && !want_panic && !want_ign {
            return;
        }
        let tcx = self.tcx;
        let def = o.def;
        let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
        let sig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(sig));
        let inputs: Vec<Ty<'tcx>> = sig.inputs().to_vec();
        let out_ty = sig.output();
        if inputs.len() != o.args.len() {
            for w in &wanted {
                self.report(w, me, &o, &Verdict::Unknown(format!("takes {} arguments", inputs.len())), &[]);
            }
            return;
        }
        let mut st = State::new();
        // precondition
        let mut paths = vec![st.path.clone()];
        for (b, v) in &o.pre {
            let mut n = vec![];
            for p in paths {
                n.extend(p.assume(*b, *v));
            }
            paths = n;
        }
        let mut vals = vec![];
        let mut me_ptr: Option<(Ptr, Ty<'tcx>)> = None;
        let mut sl_ptr: Option<Ptr> = None;
        for (a, t) in o.args.iter().zip(&inputs) {
            match a {
                Arg::Me(b) => match t.kind() {
                    ty::Ref(_, inner, _) => {
                        let v = me.enc(tcx, *inner, b, &mut st);
                        let al = st.alloc(v);
                        let p = Ptr { base: al, path: Rc::new(vec![]), start: 0, meta: Meta::None };
                        me_ptr = Some((p.clone(), *inner));
                        vals.push(Val::Ptr(Rc::new(p)));
                    }
                    _ => {
                        let v = me.enc(tcx, *t, b, &mut st);
                        vals.push(v);
                    }
                },
                Arg::Val(v) => {
                    // adapt scalar-in-newtype and array shapes to the parameter type
                    let x = shape(tcx, v, *t, &mut st);
                    vals.push(x);
                }
                Arg::Slice(b, n) => {
                    let al = st.alloc(bytes_val(b));
                    let p = Ptr { base: al, path: Rc::new(vec![]), start: 0, meta: Meta::Len(n.clone()) };
                    sl_ptr = Some(p.clone());
                    vals.push(Val::Ptr(Rc::new(p)));
                }
                Arg::Fmt => vals.push(Val::Opaque(5)),
            }
        }
        let args = ty::GenericArgs::identity_for_item(tcx, def);
        let inst = Instance::new_raw(def, args);
        for p in paths {
            let mut s0 = st.clone();
            s0.path = p;
            self.eng.steps = 0;
            let outs = self.eng.call_inst(inst, vals.clone(), s0);
            for (s, e, v) in outs {
                let notes: Vec<String> = s.notes.iter().cloned().collect();
                match e {
                    End::Dead => {}
                    End::Stop => {
                        for w in &wanted {
                            self.report(w, me, &o, &Verdict::Unknown("internal: stop".into()), &notes);
                        }
                    }
                    End::Budget(m) => {
                        for w in &wanted {
                            self.report(w, me, &o, &Verdict::Unknown(m.clone()), &notes);
                        }
                    }
                    End::Panic(m) => {
                        let vd = match self.point(&s.path, None, &o.rng) {
                            Some(pt) if notes.is_empty() => Verdict::Bad(format!("may panic: {m} [{}]", self.show_point(&pt, &o))),
                            _ => Verdict::Unknown(format!("panic not excluded: {m}")),
                        };
                        for w in &wanted {
                            self.report(w, me, &o, &vd, &notes);
                        }
                        if want_panic {
                            self.report("P16", me, &o, &vd, &notes);
                        }
                    }
                    End::Ret => {
                        if want_panic {
                            self.report("P16", me, &o, &Verdict::Ok, &notes);
                        }
                        let (mut vd, mut oth) = self.ret_ok(me, &o.ret, &v, out_ty, &s, &o);
                        let mut prot_vd = Verdict::Ok;
                        let mut post_bits = None;
                        if let (Some((p, t)), Some(exp)) = (&me_ptr, &o.post) {
                            let now = s.read(p.base, &p.path);
                            match me.dec(tcx, *t, &now, &s) {
                                Some((a, ot)) => {
                                    let c = self.cmp(exp, &a, &s, "bitfield afterwards", &o, None);
                                    if matches!(vd, Verdict::Ok) || matches!(c, Verdict::Bad(_)) {
                                        if !matches!(vd, Verdict::Bad(_)) {
                                            vd = c;
                                        }
                                    }
                                    oth = Some(ot);
                                    post_bits = Some(a);
                                }
                                None => {
                                    if matches!(vd, Verdict::Ok) {
                                        vd = Verdict::Unknown("bitfield afterwards not understood".into())
                                    }
                                }
                            }
                        }
                        if let (Some(p), Some(exp)) = (&sl_ptr, &o.slice) {
                            let now = s.read(p.base, &p.path);
                            let mut a = vec![];
                            let c = if leaves(&now, &s, &mut a) {
                                self.cmp(exp, &a, &s, "slice afterwards", &o, None)
                            } else {
                                Verdict::Unknown("slice afterwards not understood".into())
                            };
                            if matches!(vd, Verdict::Ok) {
                                vd = c;
                            }
                        }
                        if let Some(tr) = &o.trace {
                            let c = self.trace_ok(me, tr, &s, &o);
                            if matches!(vd, Verdict::Ok) {
                                vd = c;
                            }
                        }
                        if let Verdict::Unknown(_) = vd {
                            if o.soft {
                                vd = Verdict::Ok;
                                for w in &wanted {
                                    self.tally(w, "open class not decided");
                                }
                            }
                        }
                        for w in &wanted {
                            self.report(w, me, &o, &vd, &notes);
                        }
                        if want_prot {
                            let pr = o.prot.as_ref().unwrap();
                            if let (Some(a), Some(Arg::Me(before))) = (&post_bits, o.args.first()) {
                                prot_vd = self.cmp(before, a, &s, "protected bits afterwards", &o, Some(pr));
                            } else if me_ptr.is_some() {
                                // a read: the value may not depend on the hidden bits
                                prot_vd = match &vd {
                                    Verdict::Bad(_) => {
                                        let mut a = vec![];
                                        let x = match &v {
                                            Val::Enum(0, fs) => fs.first().cloned().unwrap_or(eng::unit()),
                                            x => x.clone(),
                                        };
                                        leaves(&x, &s, &mut a);
                                        if let Some(Arg::Me(before)) = o.args.first() {
                                            let hidden: Vec<Bit> = pr.iter().map(|i| before[*i]).collect();
                                            match a.iter().find(|b| dom::depends(s.path.reduce(**b), &hidden)) {
                                                Some(b) => Verdict::Bad(format!("reveals an unreadable bit: {}", dom::show(*b))),
                                                None => Verdict::Ok,
                                            }
                                        } else {
                                            Verdict::Ok
                                        }
                                    }
                                    x => x.clone(),
                                };
                            }
                            self.report("P11", me, &o, &prot_vd, &notes);
                        }
                        if want_ign {
                            if let Some(ot) = oth {
                                let is_mut = o.post.is_some();
                                let from_me = matches!(o.args.first(), Some(Arg::Me(_)));
                                let mut iv = Verdict::Ok;
                                let mut k = 0;
                                for i in 0..me.nfields {
                                    if i == me.backing {
                                        continue;
                                    }
                                    let x = &ot[k];
                                    k += 1;
                                    let ok = if is_mut || from_me {
                                        *x == Val::Opaque(1000 + i as u64)
                                    } else {
                                        is_default(x)
                                    };
                                    if !ok {
                                        let msg = format!(
                                            "ignored field #{i} is not {}",
                                            if is_mut || from_me { "left alone" } else { "its Default" }
                                        );
                                        iv = if matches!(x, Val::Top) { Verdict::Unknown(msg) } else { Verdict::Bad(msg) };
                                    }
                                }
                                self.report("P25", me, &o, &iv, &notes);
                            }
                        }
                    }
                }
            }
        }
    }

    fn trace_ok(&self, me: &Me<'tcx>, exp: &[(String, Vec<Bit>, bool)], st: &State, o: &Obl) -> Verdict {
        let tr = &st.trace;
        let show = |x: &eng::Event| format!("{}({:?})", x.what, x.name);
        if tr.is_empty() {
            return Verdict::Unknown("no Debug builder calls recognised".into());
        }
        let bad = |m: String| match self.point(&st.path, None, &o.rng) {
            Some(_) => Verdict::Bad(m),
            None => Verdict::Unknown(m),
        };
        if tr[0].what != "struct" || tr[0].name.as_deref() != Some(me.st.debug_name.as_str()) {
            return bad(format!("prints {} instead of the struct name", show(&tr[0])));
        }
        let fields: Vec<&eng::Event> = tr.iter().filter(|e| e.what == "field").collect();
        let names: Vec<String> = fields.iter().map(|e| e.name.clone().unwrap_or("?".into())).collect();
        let want: Vec<String> = exp.iter().map(|e| e.0.clone()).collect();
        if names != want {
            return bad(format!("prints fields {names:?} instead of {want:?}"));
        }
        if tr.last().map(|e| e.what.as_str()) != Some("finish") {
            return bad("does not finish the struct".into());
        }
        for (e, (n, bits, must)) in fields.iter().zip(exp) {
            if !must {
                continue;
            }
            let (_, v) = e.val.as_ref().unwrap();
            let mut a = vec![];
            if !leaves(v, st, &mut a) {
                return Verdict::Unknown(format!("value printed for {n} not understood"));
            }
            // printed number: compare as an unbounded non-negative number
            let k = a.len().max(bits.len());
            a.resize(k, F);
            let mut b = bits.clone();
            b.resize(k, F);
            match self.cmp(&b, &a, st, &format!("value printed for {n}"), o, None) {
                Verdict::Ok => {}
                x => return x,
            }
        }
        Verdict::Ok
    }
}

fn is_default(v: &Val) -> bool {
    match v {
        Val::Int(i) => i.bits.iter().all(|b| *b == F),
        Val::Agg(fs) => fs.iter().all(is_default),
        Val::Enum(0, fs) => fs.is_empty(),
        _ => false,
    }
}

/// Fit a plain value into the parameter type (newtypes around scalars).
fn shape<'tcx>(tcx: TyCtxt<'tcx>, v: &Val, t: Ty<'tcx>, st: &mut State) -> Val {
    match (v, t.kind()) {
        (Val::Enum(..), _) => v.clone(),
        (Val::Int(i), ty::Adt(a, args)) if a.is_struct() => {
            // distribute the bits over the fields in order
            let mut pos = 0;
            let mut fs = vec![];
            for f in a.non_enum_variant().fields.iter() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                let n = nbits(tcx, ft);
                let part = Val::Int(Rc::new(IntV { bits: i.bits[pos..pos + n].to_vec(), rng: None }));
                pos += n;
                fs.push(shape(tcx, &part, ft, st));
            }
            Val::Agg(Rc::new(fs))
        }
        (Val::Int(i), ty::Array(e, _)) => {
            let n = nbits(tcx, *e);
            Val::Agg(Rc::new(
                i.bits
                    .chunks(n)
                    .map(|c| shape(tcx, &Val::Int(Rc::new(IntV { bits: c.to_vec(), rng: None })), *e, st))
                    .collect(),
            ))
        }
        _ => v.clone(),
    }
}

fn nbits<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> usize {
    match t.kind() {
        ty::Bool => 1,
        ty::Int(i) => i.bit_width().unwrap_or(64) as usize,
        ty::Uint(i) => i.bit_width().unwrap_or(64) as usize,
        ty::Array(e, n) => nbits(tcx, *e) * n.try_to_target_usize(tcx).unwrap_or(0) as usize,
        ty::Adt(a, args) if a.is_struct() => {
            a.non_enum_variant().fields.iter().map(|f| nbits(tcx, f.ty(tcx, args).skip_norm_wip())).sum()
        }
        _ => 0,
    }
}

include!("obl.rs");
