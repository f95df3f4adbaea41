//! The abstract domain: one abstract *bit* is an affine form over GF(2)
//! (an XOR of atoms plus a constant), or TOP.  An atom is either an input bit
//! of the analysed function or the indicator of an affine subspace
//! (a conjunction of affine equations, kept in reduced row-echelon form, so it
//! is canonical).  A path state carries a system of affine equations
//! (`Eqs`, a Karr-style domain at bit level) plus excluded subspaces.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Bit = u32;
pub const F: Bit = 0;
pub const T: Bit = 1;
pub const TOP: Bit = 2;

const MAX_ATOMS: usize = 400;
const MAX_CONJ: usize = 600;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Form {
    pub c: bool,
    pub a: Box<[u32]>,
}

pub enum Atom {
    Var(String),
    /// All the forms are 1.
    Conj(Rc<[Bit]>),
}

pub struct Dom {
    forms: Vec<Form>,
    map: HashMap<Form, Bit>,
    pub atoms: Vec<Atom>,
    conj_map: HashMap<Rc<[Bit]>, u32>,
    has_conj: Vec<bool>,
    xor_cache: HashMap<(Bit, Bit), Bit>,
    and_cache: HashMap<(Bit, Bit), Bit>,
}

thread_local! {
    pub static DOM: RefCell<Dom> = RefCell::new(Dom::new());
}

pub fn var(name: String) -> Bit {
    DOM.with(|d| d.borrow_mut().var(name))
}
pub fn xor(a: Bit, b: Bit) -> Bit {
    if a == F {
        return b;
    }
    if b == F {
        return a;
    }
    if a == TOP || b == TOP {
        return TOP;
    }
    if a == b {
        return F;
    }
    DOM.with(|d| d.borrow_mut().xor(a, b))
}
pub fn not(a: Bit) -> Bit {
    match a {
        F => T,
        T => F,
        TOP => TOP,
        _ => xor(a, T),
    }
}
pub fn and(a: Bit, b: Bit) -> Bit {
    if a == F || b == F {
        return F;
    }
    if a == T {
        return b;
    }
    if b == T {
        return a;
    }
    if a == b {
        return a;
    }
    if a == TOP || b == TOP {
        return TOP;
    }
    DOM.with(|d| d.borrow_mut().and(a, b))
}
pub fn or(a: Bit, b: Bit) -> Bit {
    if a == T || b == T {
        return T;
    }
    if a == F {
        return b;
    }
    if b == F {
        return a;
    }
    if a == b {
        return a;
    }
    not(and(not(a), not(b)))
}
/// All of the bits are 1.
pub fn conj(bits: Vec<Bit>) -> Bit {
    if bits.iter().any(|b| *b == F) {
        return F;
    }
    if bits.iter().any(|b| *b == TOP) {
        return TOP;
    }
    DOM.with(|d| d.borrow_mut().conj(bits))
}
pub fn show(b: Bit) -> String {
    DOM.with(|d| d.borrow().show(b))
}
/// Members of a bit that is exactly one conjunction atom: (positive?, members)
pub fn as_conj(b: Bit) -> Option<(bool, Rc<[Bit]>)> {
    DOM.with(|d| d.borrow().as_conj(b))
}
pub fn is_const(b: Bit) -> Option<bool> {
    match b {
        F => Some(false),
        T => Some(true),
        _ => None,
    }
}
pub fn is_linear(b: Bit) -> bool {
    b != TOP && DOM.with(|d| !d.borrow().has_conj[b as usize])
}

impl Dom {
    pub fn new() -> Self {
        let mut d = Dom {
            forms: vec![],
            map: HashMap::new(),
            atoms: vec![],
            conj_map: HashMap::new(),
            has_conj: vec![],
            xor_cache: HashMap::new(),
            and_cache: HashMap::new(),
        };
        d.intern(false, vec![]);
        d.intern(true, vec![]);
        // slot 2: TOP (never looked at as a form)
        d.forms.push(Form { c: false, a: vec![u32::MAX].into() });
        d.has_conj.push(false);
        d
    }

    fn intern(&mut self, c: bool, a: Vec<u32>) -> Bit {
        if a.len() > MAX_ATOMS {
            return TOP;
        }
        let f = Form { c, a: a.into() };
        if let Some(b) = self.map.get(&f) {
            return *b;
        }
        let id = self.forms.len() as Bit;
        let hc = f.a.iter().any(|x| matches!(self.atoms[*x as usize], Atom::Conj(_)));
        self.forms.push(f.clone());
        self.has_conj.push(hc);
        self.map.insert(f, id);
        id
    }

    pub fn var(&mut self, name: String) -> Bit {
        let id = self.atoms.len() as u32;
        self.atoms.push(Atom::Var(name));
        self.intern(false, vec![id])
    }

    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        if a == TOP || b == TOP {
            return TOP;
        }
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        if a == b {
            return F;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.xor_cache.get(&k) {
            return *r;
        }
        let (x, y) = (&self.forms[a as usize], &self.forms[b as usize]);
        let mut out = Vec::with_capacity(x.a.len() + y.a.len());
        let (mut i, mut j) = (0, 0);
        while i < x.a.len() || j < y.a.len() {
            if j >= y.a.len() || (i < x.a.len() && x.a[i] < y.a[j]) {
                out.push(x.a[i]);
                i += 1;
            } else if i >= x.a.len() || y.a[j] < x.a[i] {
                out.push(y.a[j]);
                j += 1;
            } else {
                i += 1;
                j += 1;
            }
        }
        let c = x.c ^ y.c;
        let r = self.intern(c, out);
        self.xor_cache.insert(k, r);
        r
    }

    pub fn and(&mut self, a: Bit, b: Bit) -> Bit {
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.and_cache.get(&k) {
            return *r;
        }
        let r = self.conj(vec![a, b]);
        self.and_cache.insert(k, r);
        r
    }

    /// The constant and atoms of a form, each as a form, with the members of
    /// those that are conjunctions.
    fn atoms_of(&self, b: Bit) -> Vec<(Bit, Option<Rc<[Bit]>>)> {
        let f = &self.forms[b as usize];
        let mut out = vec![];
        if f.c {
            out.push((T, None));
        }
        for a in f.a.iter() {
            let one = Form { c: false, a: vec![*a].into() };
            let bit = self.map[&one];
            out.push((
                bit,
                match &self.atoms[*a as usize] {
                    Atom::Conj(ms) => Some(ms.clone()),
                    _ => None,
                },
            ));
        }
        out
    }

    /// What the excluded subspaces over the variables of `last` leave of those
    /// variables: None when nothing, else the variables that are now fixed.
    fn leftover(&self, neqs: &[Bit], last: Bit) -> Option<Vec<(u32, bool)>> {
        if last <= TOP {
            return Some(vec![]);
        }
        let mut vars = std::collections::BTreeSet::new();
        self.vars_of(last, &mut vars);
        if vars.len() > 8 {
            return Some(vec![]);
        }
        let rel: Vec<Bit> = neqs
            .iter()
            .copied()
            .filter(|n| {
                let mut v = std::collections::BTreeSet::new();
                self.vars_of(*n, &mut v);
                *n > TOP && v.is_subset(&vars)
            })
            .collect();
        if rel.len() < 2 {
            return Some(vec![]);
        }
        let (mut ones, mut zeros, mut any) = (0u32, 0u32, false);
        for k in 0..1u32 << vars.len() {
            let asg = vars.iter().enumerate().map(|(i, v)| (*v, (k >> i) & 1 == 1)).collect();
            if !rel.iter().any(|n| self.eval(*n, &asg)) {
                any = true;
                ones |= k;
                zeros |= !k;
            }
        }
        if !any {
            return None;
        }
        Some(
            vars.iter()
                .enumerate()
                .filter(|(i, _)| (ones >> i) & 1 != (zeros >> i) & 1)
                .map(|(i, v)| (*v, (ones >> i) & 1 == 1))
                .collect(),
        )
    }

    pub fn as_conj(&self, b: Bit) -> Option<(bool, Rc<[Bit]>)> {
        if b <= TOP {
            return None;
        }
        let f = &self.forms[b as usize];
        if f.a.len() != 1 {
            return None;
        }
        match &self.atoms[f.a[0] as usize] {
            Atom::Conj(ms) => Some((!f.c, ms.clone())),
            _ => None,
        }
    }

    /// Canonical conjunction "every form in `bits` is 1".
    pub fn conj(&mut self, bits: Vec<Bit>) -> Bit {
        // flatten positive conjunction atoms
        let mut todo = bits;
        let mut flat: Vec<Bit> = vec![];
        while let Some(b) = todo.pop() {
            if b == F {
                return F;
            }
            if b == TOP {
                return TOP;
            }
            if b == T {
                continue;
            }
            match self.as_conj(b) {
                Some((true, ms)) => todo.extend(ms.iter().copied()),
                _ => flat.push(b),
            }
        }
        flat.sort();
        flat.dedup();
        if flat.is_empty() {
            return T;
        }
        if flat.len() == 1 {
            return flat[0];
        }
        // linear part
        let mut eqs = EqSys::default();
        let (lin, non): (Vec<Bit>, Vec<Bit>) =
            flat.iter().partition(|b| !self.has_conj[**b as usize]);
        for b in &lin {
            let g = self.xor(*b, T); // g == 0
            if !eqs.add_zero(self, g) {
                return F;
            }
        }
        // forms with conjunction atoms: renormalise under the linear part
        let mut changed = false;
        let mut rest = vec![];
        for b in non {
            let r = eqs.reduce_deep(self, b);
            if r == F {
                return F;
            }
            if r == TOP {
                return TOP;
            }
            if r == T {
                changed = true;
                continue;
            }
            if r != b {
                changed = true;
            }
            rest.push(r);
        }
        if changed {
            let mut again: Vec<Bit> = eqs.as_ones(self);
            again.extend(rest);
            return self.conj(again);
        }
        // treat remaining conjunction atoms as variables in one elimination
        for b in &rest {
            let g = self.xor(*b, T);
            if !eqs.add_zero(self, g) {
                return F;
            }
        }
        let mut out = eqs.as_ones(self);
        out.sort();
        if out.is_empty() {
            return T;
        }
        if out.len() == 1 {
            return out[0];
        }
        if out.len() > MAX_CONJ {
            return TOP;
        }
        let key: Rc<[Bit]> = out.into();
        if let Some(a) = self.conj_map.get(&key) {
            let a = *a;
            return self.intern(false, vec![a]);
        }
        let id = self.atoms.len() as u32;
        self.atoms.push(Atom::Conj(key.clone()));
        self.conj_map.insert(key, id);
        self.intern(false, vec![id])
    }

    pub fn show(&self, b: Bit) -> String {
        match b {
            F => return "0".into(),
            T => return "1".into(),
            TOP => return "?".into(),
            _ => {}
        }
        let f = &self.forms[b as usize];
        let mut parts: Vec<String> = vec![];
        for a in f.a.iter() {
            parts.push(match &self.atoms[*a as usize] {
                Atom::Var(n) => n.clone(),
                Atom::Conj(ms) => {
                    let mut s: Vec<String> = ms.iter().take(4).map(|m| self.show(*m)).collect();
                    if ms.len() > 4 {
                        s.push("..".into());
                    }
                    format!("all({})", s.join(","))
                }
            });
        }
        let body = parts.join("^");
        if f.c {
            if f.a.len() == 1 {
                format!("!{}", body)
            } else {
                format!("1^{}", body)
            }
        } else {
            body
        }
    }
}

/// A solved system of affine equations: pivot atom = form without pivots.
#[derive(Default, Clone)]
pub struct EqSys {
    piv: Vec<(u32, Bit)>, // sorted by atom
}

impl EqSys {
    fn get(&self, a: u32) -> Option<Bit> {
        self.piv.binary_search_by_key(&a, |p| p.0).ok().map(|i| self.piv[i].1)
    }
    pub fn is_empty(&self) -> bool {
        self.piv.is_empty()
    }
    /// Substitute pivots (not looking inside conjunction atoms).
    fn reduce(&self, d: &mut Dom, b: Bit) -> Bit {
        if b <= TOP || self.piv.is_empty() {
            return b;
        }
        let f = d.forms[b as usize].clone();
        if !f.a.iter().any(|a| self.get(*a).is_some()) {
            return b;
        }
        let mut keep = vec![];
        let mut acc = if f.c { T } else { F };
        for a in f.a.iter() {
            match self.get(*a) {
                Some(r) => acc = d.xor(acc, r),
                None => keep.push(*a),
            }
        }
        let k = d.intern(false, keep);
        d.xor(acc, k)
    }
    /// Substitute pivots, also inside conjunction atoms.
    pub fn reduce_deep(&self, d: &mut Dom, b: Bit) -> Bit {
        if b <= TOP || self.piv.is_empty() {
            return b;
        }
        if !d.has_conj[b as usize] {
            return self.reduce(d, b);
        }
        let f = d.forms[b as usize].clone();
        let mut acc = if f.c { T } else { F };
        for a in f.a.iter() {
            let r = match self.get(*a) {
                Some(r) => r,
                None => {
                    let ms = match &d.atoms[*a as usize] {
                        Atom::Conj(ms) => Some(ms.clone()),
                        _ => None,
                    };
                    match ms {
                        Some(ms) => {
                            let v: Vec<Bit> = ms.iter().map(|m| self.reduce_deep(d, *m)).collect();
                            d.conj(v)
                        }
                        None => d.intern(false, vec![*a]),
                    }
                }
            };
            acc = d.xor(acc, r);
        }
        acc
    }
    /// Add form == 0.  False when inconsistent.
    pub fn add_zero(&mut self, d: &mut Dom, g: Bit) -> bool {
        let g = self.reduce(d, g);
        if g == F || g == TOP {
            return true;
        }
        if g == T {
            return false;
        }
        let f = d.forms[g as usize].clone();
        // pivot: a variable if there is one, else a conjunction atom
        let p = *f
            .a
            .iter()
            .rev()
            .find(|a| matches!(d.atoms[**a as usize], Atom::Var(_)))
            .unwrap_or(f.a.last().unwrap());
        let pb = d.intern(false, vec![p]);
        let rhs = d.xor(g, pb);
        // substitute into the existing right-hand sides
        let one = EqSys { piv: vec![(p, rhs)] };
        for i in 0..self.piv.len() {
            let r = self.piv[i].1;
            self.piv[i].1 = one.reduce(d, r);
        }
        let pos = self.piv.binary_search_by_key(&p, |x| x.0).unwrap_err();
        self.piv.insert(pos, (p, rhs));
        true
    }
    /// The system as a list of forms that are 1 (RREF, canonical up to pivots).
    fn as_ones(&self, d: &mut Dom) -> Vec<Bit> {
        let mut out = vec![];
        for (p, r) in self.piv.clone() {
            let pb = d.intern(false, vec![p]);
            let z = d.xor(pb, r);
            out.push(d.xor(z, T));
        }
        out
    }
}

/// The path condition: equations plus excluded subspaces.
#[derive(Clone, Default)]
pub struct Path {
    pub eqs: Rc<EqSys>,
    pub neqs: Rc<Vec<Bit>>, // each is a conjunction form known to be 0
    /// a condition the domain cannot express was assumed on the way
    pub fuzzy: bool,
    memo: Rc<RefCell<HashMap<Bit, Bit>>>,
}

impl Path {
    pub fn reduce(&self, b: Bit) -> Bit {
        if b <= TOP || (self.eqs.is_empty() && self.neqs.is_empty()) {
            return b;
        }
        if let Some(r) = self.memo.borrow().get(&b) {
            return *r;
        }
        let mut r = DOM.with(|d| self.eqs.reduce_deep(&mut d.borrow_mut(), b));
        if r > TOP && !self.neqs.is_empty() {
            if let Some((pos, ms)) = as_conj(r) {
                if self.excluded(&ms) {
                    r = if pos { F } else { T };
                }
            } else if is_linear(r) {
                // a single linear form may be decided by an excluded subspace
                for (val, res) in [(T, F), (F, T)] {
                    let lit = if val == T { r } else { not(r) };
                    if self.excluded(&[lit]) {
                        r = res;
                        break;
                    }
                }
            } else {
                // drop the conjunction atoms that lie in an excluded subspace
                let mut acc = F;
                let mut changed = false;
                for (atom, ms) in DOM.with(|d| d.borrow().atoms_of(r)) {
                    match ms {
                        Some(ms) if self.excluded(&ms) => changed = true,
                        _ => acc = xor(acc, atom),
                    }
                }
                if changed {
                    r = self.reduce(acc);
                }
            }
        }
        self.memo.borrow_mut().insert(b, r);
        r
    }
    /// Do "all ms are 1" together with the equations imply an excluded subspace?
    fn excluded(&self, ms: &[Bit]) -> bool {
        DOM.with(|dd| {
            let mut d = dd.borrow_mut();
            let mut e = (*self.eqs).clone();
            for m in ms {
                let g = d.xor(*m, T);
                if !e.add_zero(&mut d, g) {
                    return true;
                }
            }
            for n in self.neqs.iter() {
                if e.reduce_deep(&mut d, *n) == T {
                    return true;
                }
            }
            false
        })
    }
    pub fn show(&self) -> String {
        let eqs: Vec<String> = DOM.with(|d| {
            let mut d = d.borrow_mut();
            self.eqs.as_ones(&mut d).iter().map(|b| d.show(*b)).collect()
        });
        let neqs: Vec<String> = self.neqs.iter().map(|b| show(*b)).collect();
        format!("where {} and none of {}", eqs.join(", "), neqs.join("; "))
    }
    pub fn decide(&self, b: Bit) -> Option<bool> {
        is_const(self.reduce(b))
    }
    /// Paths (a disjoint cover) on which `b` has the value `val`.
    pub fn assume(&self, b: Bit, val: bool) -> Vec<Path> {
        let r = self.reduce(b);
        if let Some(c) = is_const(r) {
            return if c == val { vec![self.clone()] } else { vec![] };
        }
        if r == TOP {
            return vec![Path { fuzzy: true, ..self.clone() }];
        }
        let f = if val { r } else { not(r) };
        match as_conj(f) {
            Some((true, ms)) => {
                let mut cur = vec![self.clone()];
                for m in ms.iter() {
                    let mut nxt = vec![];
                    for p in cur {
                        nxt.extend(p.assume(*m, true));
                    }
                    cur = nxt;
                }
                cur
            }
            Some((false, ms)) => {
                if ms.len() <= 2 {
                    let mut out = vec![];
                    let mut cur = vec![self.clone()];
                    for m in ms.iter() {
                        let mut nxt = vec![];
                        for p in cur {
                            out.extend(p.assume(*m, false));
                            nxt.extend(p.assume(*m, true));
                        }
                        cur = nxt;
                    }
                    out
                } else {
                    let mut n = (*self.neqs).clone();
                    let not_f = not(f);
                    n.push(not_f);
                    let fixed = match DOM.with(|d| d.borrow().leftover(&n, not_f)) {
                        Some(f) => f,
                        None => return vec![],
                    };
                    let mut cur = Path { eqs: self.eqs.clone(), neqs: Rc::new(n), fuzzy: self.fuzzy, memo: Default::default() }
                        .settle();
                    for (v, val) in fixed {
                        let b = DOM.with(|d| d.borrow_mut().intern(false, vec![v]));
                        cur = cur.into_iter().flat_map(|p| p.assume(b, val)).collect();
                    }
                    cur
                }
            }
            None => {
                let mut e = (*self.eqs).clone();
                let ok = DOM.with(|d| {
                    let mut d = d.borrow_mut();
                    let g = d.xor(f, T);
                    e.add_zero(&mut d, g)
                });
                if !ok {
                    return vec![];
                }
                Path { eqs: Rc::new(e), neqs: self.neqs.clone(), fuzzy: self.fuzzy, memo: Default::default() }.settle()
            }
        }
    }
    /// Re-examine excluded subspaces after an equation was added.
    fn settle(self) -> Vec<Path> {
        let mut keep = vec![];
        let mut forced = vec![];
        for n in self.neqs.iter() {
            let r = DOM.with(|d| self.eqs.reduce_deep(&mut d.borrow_mut(), *n));
            match r {
                T => return vec![],
                F => {}
                _ => {
                    if as_conj(r).is_some() || r == TOP {
                        keep.push(r)
                    } else {
                        forced.push(r)
                    }
                }
            }
        }
        if keep.len() >= 2 && DOM.with(|d| keep.iter().any(|k| d.borrow().leftover(&keep, *k).is_none())) {
            return vec![];
        }
        let mut cur =
            vec![Path { eqs: self.eqs.clone(), neqs: Rc::new(keep), fuzzy: self.fuzzy, memo: Default::default() }];
        for f in forced {
            let mut nxt = vec![];
            for p in cur {
                nxt.extend(p.assume(f, false));
            }
            cur = nxt;
        }
        cur
    }
}

// ------------------------------------------------------------ concrete points

/// Value of a form under an assignment of the input bits (absent = 0).
pub fn eval(b: Bit, asg: &HashMap<u32, bool>) -> bool {
    DOM.with(|d| d.borrow().eval(b, asg))
}

/// Does the form mention one of the given input bits?
pub fn depends(b: Bit, vars: &[Bit]) -> bool {
    DOM.with(|d| {
        let d = d.borrow();
        let set: std::collections::HashSet<u32> = vars
            .iter()
            .filter(|v| **v > TOP)
            .flat_map(|v| d.forms[*v as usize].a.iter().copied().collect::<Vec<_>>())
            .collect();
        d.mentions(b, &set)
    })
}

impl Dom {
    fn eval(&self, b: Bit, asg: &HashMap<u32, bool>) -> bool {
        match b {
            F | TOP => return false,
            T => return true,
            _ => {}
        }
        let f = &self.forms[b as usize];
        let mut r = f.c;
        for a in f.a.iter() {
            r ^= match &self.atoms[*a as usize] {
                Atom::Var(_) => asg.get(a).copied().unwrap_or(false),
                Atom::Conj(ms) => ms.iter().all(|m| self.eval(*m, asg)),
            };
        }
        r
    }
    fn mentions(&self, b: Bit, set: &std::collections::HashSet<u32>) -> bool {
        if b <= TOP {
            return false;
        }
        self.forms[b as usize].a.iter().any(|a| {
            set.contains(a)
                || match &self.atoms[*a as usize] {
                    Atom::Conj(ms) => ms.iter().any(|m| self.mentions(*m, set)),
                    _ => false,
                }
        })
    }
    fn vars_of(&self, b: Bit, out: &mut std::collections::BTreeSet<u32>) {
        if b <= TOP {
            return;
        }
        for a in self.forms[b as usize].a.iter() {
            match &self.atoms[*a as usize] {
                Atom::Var(_) => {
                    out.insert(*a);
                }
                Atom::Conj(ms) => {
                    for m in ms.iter() {
                        self.vars_of(*m, out);
                    }
                }
            }
        }
    }
}

/// A point of the input space that satisfies the path (checked), if one of a
/// fixed set of candidates does.
pub fn sample(
    p: &Path,
    want: Option<Bit>,
    ok: impl Fn(&dyn Fn(Bit) -> bool) -> bool,
    rngs: Vec<(Vec<Bit>, (u128, u128))>,
) -> Option<HashMap<u32, bool>> {
    if p.fuzzy || p.neqs.iter().any(|n| *n == TOP) {
        return None;
    }
    let (vars, piv) = DOM.with(|d| {
        let d = d.borrow();
        let mut vs = std::collections::BTreeSet::new();
        for (a, r) in &p.eqs.piv {
            match &d.atoms[*a as usize] {
                Atom::Var(_) => {
                    vs.insert(*a);
                }
                Atom::Conj(ms) => {
                    for m in ms.iter() {
                        d.vars_of(*m, &mut vs)
                    }
                }
            }
            d.vars_of(*r, &mut vs);
        }
        for n in p.neqs.iter() {
            d.vars_of(*n, &mut vs);
        }
        if let Some(w) = want {
            d.vars_of(w, &mut vs);
        }
        (vs, p.eqs.piv.clone())
    });
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    for round in 0..240 {
        let mut asg: HashMap<u32, bool> = HashMap::new();
        for v in &vars {
            let b = match round {
                0 => false,
                1 => true,
                r if r % 3 == 0 => rnd() % 8 == 0,
                r if r % 3 == 1 => rnd() % 8 != 0,
                _ => rnd() % 2 == 0,
            };
            asg.insert(*v, b);
        }
        for (bits, (lo, hi)) in &rngs {
            let span = hi - lo;
            let k = match round % 4 {
                0 => *lo,
                1 => *hi,
                _ => {
                    let r = ((rnd() as u128) << 64) | rnd() as u128;
                    if span == u128::MAX {
                        r
                    } else {
                        let r = if round % 8 < 4 { r % 97 } else { r };
                        lo + r % (span + 1)
                    }
                }
            };
            DOM.with(|d| {
                let d = d.borrow();
                for (i, b) in bits.iter().enumerate() {
                    if *b > TOP && d.forms[*b as usize].a.len() == 1 {
                        asg.insert(d.forms[*b as usize].a[0], (k >> i) & 1 == 1);
                    }
                }
            });
        }
        // pivots follow from the rest; conjunction atoms inside may need a
        // second pass
        for _ in 0..3 {
            for (a, r) in &piv {
                let is_var = DOM.with(|d| matches!(d.borrow().atoms[*a as usize], Atom::Var(_)));
                if is_var {
                    let v = eval(*r, &asg);
                    asg.insert(*a, v);
                }
            }
        }
        let good = DOM.with(|d| {
            let d = d.borrow();
            piv.iter().all(|(a, r)| {
                let l = match &d.atoms[*a as usize] {
                    Atom::Var(_) => asg.get(a).copied().unwrap_or(false),
                    Atom::Conj(ms) => ms.iter().all(|m| d.eval(*m, &asg)),
                };
                l == d.eval(*r, &asg)
            }) && p.neqs.iter().all(|n| !d.eval(*n, &asg))
                && want.map(|w| d.eval(w, &asg)).unwrap_or(true)
        });
        if good && ok(&|b| eval(b, &asg)) {
            return Some(asg);
        }
    }
    None
}

pub fn reset() {
    DOM.with(|d| *d.borrow_mut() = Dom::new());
}
pub fn size() -> usize {
    DOM.with(|d| d.borrow().forms.len())
}
