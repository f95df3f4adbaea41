// ---------------------------------------------------------------- generation

fn byterev(b: &[Bit]) -> Vec<Bit> {
    let mut out = vec![];
    for c in b.chunks(8).rev() {
        out.extend_from_slice(c);
    }
    out
}

fn with(s: &[Bit], f: &Field, fb: &[Bit]) -> Vec<Bit> {
    let mut r = s.to_vec();
    for k in 0..f.w {
        r[f.off + k] = fb.get(k).copied().unwrap_or(F);
    }
    r
}

impl St {
    fn canon(&self, s: &[Bit]) -> Vec<Bit> {
        let mut r = s.to_vec();
        for f in &self.fields {
            let c = f.ty.canon(&s[f.off..f.off + f.w]);
            r = with(&r, f, &c);
        }
        r
    }
    fn def_bits(&self, f: &Field) -> Option<Vec<Bit>> {
        if let Some(b) = &f.default_bits {
            let mut b = b.clone();
            b.resize(f.w, F);
            return Some(b);
        }
        f.default.map(|d| kbits(d, f.w))
    }
    fn apply_defaults(&self, s: &[Bit], which: impl Fn(&Field) -> bool) -> Vec<Bit> {
        let mut r = s.to_vec();
        for f in &self.fields {
            if which(f) {
                if let Some(d) = self.def_bits(f) {
                    r = with(&r, f, &d);
                }
            }
        }
        r
    }
    fn zeroed(&self) -> Vec<Bit> {
        self.canon(&vec![F; self.bits])
    }
    fn protected(&self) -> Vec<usize> {
        self.fields.iter().filter(|f| !f.writable()).flat_map(|f| f.off..f.off + f.w).collect()
    }
    fn hidden(&self) -> Vec<usize> {
        self.fields.iter().filter(|f| !f.bit_readable()).flat_map(|f| f.off..f.off + f.w).collect()
    }
}

fn obl(prop: &'static str, def: DefId, what: String, args: Vec<Arg>, ret: Ret) -> Obl {
    Obl {
        prop,
        extra: vec![],
        what,
        def,
        args,
        pre: vec![],
        rng: vec![],
        ret,
        post: None,
        slice: None,
        prot: None,
        trace: None,
        soft: false,
    }
}

impl Obl {
    fn post(mut self, b: Vec<Bit>) -> Self {
        self.post = Some(b);
        self
    }
    fn prot(mut self, p: Vec<usize>) -> Self {
        self.prot = Some(p);
        self
    }
    fn pre(mut self, b: Bit, v: bool) -> Self {
        self.pre.push((b, v));
        self
    }
}

impl<'tcx> Cx<'tcx> {
    fn want(&self, ps: &[&str]) -> bool {
        ps.iter().any(|p| self.props.contains(*p))
    }

    fn go(&mut self, me: &Me<'tcx>, mut o: Obl, custom: bool) {
        if custom {
            o.extra.push("P18");
        }
        if me.st.heap {
            o.extra.push("P26");
        }
        self.check(me, o)
    }

    fn fnd(&mut self, me: &Me<'tcx>, builder: bool, name: &str) -> Option<DefId> {
        let m = if builder { &me.bfns } else { &me.fns };
        match m.get(name) {
            Some(d) => Some(*d),
            None => {
                self.absent.insert(format!("{}::{}{}", me.st.id, if builder { "Builder::" } else { "" }, name));
                None
            }
        }
    }

    /// all the (value argument, stored bits, precondition) cases for a field
    fn value_cases(&self, f: &Field) -> Vec<(String, Val, Vec<Bit>)> {
        match &f.ty {
            FTy::Flag { vals, w, .. } => vals
                .iter()
                .enumerate()
                .map(|(i, v)| (format!("variant {i}"), Val::Enum(i as u32, Rc::new(vec![])), kbits(*v, *w)))
                .collect(),
            t => {
                let v = named("v", t.leaf());
                vec![("any value".into(), int_bits(v.clone()), t.encode(&v))]
            }
        }
    }

    /// (label, precondition, fits)
    fn fit_cases(&self, f: &Field, enc: &[Bit]) -> Vec<(String, Vec<(Bit, bool)>, bool)> {
        let w = f.w;
        if enc.len() <= w {
            return vec![("fits".into(), vec![], true)];
        }
        let conds: Vec<Bit> = if let FTy::Int(_) = f.ty {
            enc[w..].iter().map(|b| not(xor(*b, enc[w - 1]))).collect()
        } else {
            enc[w..].iter().map(|b| not(*b)).collect()
        };
        let all = conj(conds.clone());
        match all {
            T => vec![("fits".into(), vec![], true)],
            F => vec![("does not fit".into(), vec![], false)],
            _ => {
                let mut out = vec![("fits".to_string(), conds.iter().map(|c| (*c, true)).collect(), true)];
                out.push(("does not fit".into(), vec![(all, false)], false));
                out
            }
        }
    }

    pub fn struct_obligations(&mut self, me: &Me<'tcx>) {
        let t = &me.st;
        let n = t.bits;
        let s = named("s", n);
        let prot = t.protected();
        let bob = if t.arr { "bytes" } else { "bits" };

        // ---- P01 constants
        if self.want(&["P01"]) {
            for f in &t.fields {
                for (suffix, want) in [("BITS", f.w), ("OFFSET", f.off)] {
                    let cn = format!("{}_{}", f.name.to_uppercase(), suffix);
                    if let Some(d) = me.consts.get(&cn) {
                        let got = self.eng.eval_const_item(*d);
                        let o = obl("P01", *d, format!("constant {cn}"), vec![], Ret::Any);
                        let v = match got {
                            Some(g) if g == want as u128 => Verdict::Ok,
                            Some(g) => Verdict::Bad(format!("{cn} is {g}, the declaration puts it at {want}")),
                            None => Verdict::Unknown("constant not evaluated".into()),
                        };
                        self.report("P01", me, &o, &v, &[]);
                    }
                }
            }
        }

        // ---- fields
        for f in &t.fields {
            let fb = s[f.off..f.off + f.w].to_vec();
            let cust = f.ty.is_custom();
            if f.readable() {
                if let Some(d) = self.fnd(me, false, &f.name) {
                    let ret = match &f.ty {
                        FTy::Flag { .. } => Ret::Flag(f.ty.clone(), fb.clone()),
                        t => Ret::Bits(t.decode(&fb)),
                    };
                    let mut o = obl("P02", d, "any state".into(), vec![Arg::Me(s.clone())], ret);
                    o.extra.push("P01");
                    self.go(me, o, cust);
                }
                if let Some(d) = me.fns.get(&format!("{}_inverted", f.name)).copied() {
                    let ib: Vec<Bit> = fb.iter().map(|b| not(*b)).collect();
                    let ret = match &f.ty {
                        FTy::Flag { .. } => Ret::Flag(f.ty.clone(), ib.clone()),
                        t => Ret::Bits(t.decode(&ib)),
                    };
                    self.go(me, obl("P15", d, "any state".into(), vec![Arg::Me(s.clone())], ret), cust);
                }
            }
            if f.writable() {
                if let Some(d) = self.fnd(me, false, &format!("set_{}", f.name)) {
                    for (what, v, enc) in self.value_cases(f) {
                        let mut o = obl("P03", d, what, vec![Arg::Me(s.clone()), Arg::Val(v)], Ret::Unit)
                            .post(with(&s, f, &enc[..enc.len().min(f.w)]))
                            .prot(prot.clone());
                        o.extra.push("P01");
                        self.go(me, o, cust);
                    }
                }
                if let Some(d) = self.fnd(me, false, &format!("checked_set_{}", f.name)) {
                    for (what, v, enc) in self.value_cases(f) {
                        for (w2, pre, fits) in self.fit_cases(f, &enc) {
                            let mut o = obl(
                                "P04",
                                d,
                                format!("{what}, {w2}"),
                                vec![Arg::Me(s.clone()), Arg::Val(v.clone())],
                                if fits { Ret::Ok(Box::new(Ret::Unit)) } else { Ret::Err },
                            )
                            .post(if fits { with(&s, f, &enc[..enc.len().min(f.w)]) } else { s.clone() })
                            .prot(prot.clone());
                            o.pre = pre;
                            self.go(me, o, cust);
                        }
                    }
                }
                for (nm, val) in [
                    (format!("clear_{}", f.name), f.ty.canon(&vec![F; f.w])),
                    (format!("clear_{}_to_default", f.name), t.def_bits(f).unwrap_or_default()),
                ] {
                    if let Some(d) = me.fns.get(&nm).copied() {
                        let o = obl("P14", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Unit)
                            .post(with(&s, f, &val))
                            .prot(prot.clone());
                        self.go(me, o, cust);
                    }
                }
                if let Some(d) = me.fns.get(&format!("invert_{}", f.name)).copied() {
                    let ib: Vec<Bit> = fb.iter().map(|b| not(*b)).collect();
                    let o = obl("P15", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Unit)
                        .post(with(&s, f, &f.ty.canon(&ib)))
                        .prot(prot.clone());
                    self.go(me, o, cust);
                }
            }
            if !f.reserved && f.access != "na" {
                if let Some(d) = me.bfns.get(&format!("with_{}", f.name)).copied() {
                    for (what, v, enc) in self.value_cases(f) {
                        let o = obl(
                            "P06",
                            d,
                            what,
                            vec![Arg::Me(s.clone()), Arg::Val(v)],
                            Ret::Me(with(&s, f, &enc[..enc.len().min(f.w)])),
                        );
                        self.go(me, o, cust);
                    }
                }
                if let Some(d) = me.bfns.get(&format!("checked_with_{}", f.name)).copied() {
                    for (what, v, enc) in self.value_cases(f) {
                        for (w2, pre, fits) in self.fit_cases(f, &enc) {
                            let mut o = obl(
                                "P06",
                                d,
                                format!("{what}, {w2}"),
                                vec![Arg::Me(s.clone()), Arg::Val(v.clone())],
                                if fits {
                                    Ret::Ok(Box::new(Ret::Me(with(&s, f, &enc[..enc.len().min(f.w)]))))
                                } else {
                                    Ret::Err
                                },
                            );
                            o.extra.push("P04");
                            o.pre = pre;
                            self.go(me, o, cust);
                        }
                    }
                }
            }
        }
        let any_custom = t.fields.iter().any(|f| f.ty.is_custom());

        // ---- construction
        let new_bits = t.apply_defaults(&t.zeroed(), |_| true);
        let nwd_bits = t.apply_defaults(&t.zeroed(), |f| f.reserved);
        for (builder, nm, b) in [
            (false, "new", &new_bits),
            (false, "new_without_defaults", &nwd_bits),
            (true, "new", &new_bits),
            (true, "new_without_defaults", &nwd_bits),
        ] {
            let m = if builder { &me.bfns } else { &me.fns };
            if let Some(d) = m.get(nm).copied() {
                let o = obl(if builder { "P06" } else { "P05" }, d, "construction".into(), vec![], Ret::Me(b.clone()));
                self.go(me, o, any_custom);
            }
        }
        if let Some(d) = me.bfns.get("build").copied() {
            self.go(me, obl("P06", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Me(s.clone())), false);
        }
        for (builder, list) in [(false, &me.impls), (true, &me.bimpls)] {
            for (tr, _, ms) in list {
                if tr.ends_with("::Default") {
                    if let Some(d) = ms.get("default").copied() {
                        let o = obl(if builder { "P06" } else { "P05" }, d, "Default".into(), vec![], Ret::Me(new_bits.clone()));
                        self.go(me, o, any_custom);
                    }
                }
            }
        }

        // ---- conversions
        let v = named("v", n);
        let from = |le: bool, x: &[Bit]| -> Vec<Bit> {
            // logical bits from an external value
            let flip = if t.arr { !le } else { le };
            t.canon(&if flip { byterev(x) } else { x.to_vec() })
        };
        let into = |le: bool, x: &[Bit]| -> Vec<Bit> {
            let flip = if t.arr { !le } else { le };
            if flip {
                byterev(x)
            } else {
                x.to_vec()
            }
        };
        let raw = |x: &[Bit]| Arg::Val(int_bits(x.to_vec()));
        let ends = [("", t.from_le, t.into_le, t.write_le), ("le_", true, true, true), ("be_", false, false, false)];
        for (e, fle, ile, wle) in ends {
            let r = from(fle, &v);
            if let Some(d) = me.fns.get(&format!("from_{e}{bob}")).copied() {
                self.go(me, obl("P07", d, "any value".into(), vec![raw(&v)], Ret::Me(r.clone())), any_custom);
            }
            let rd = t.apply_defaults(&r, |_| true);
            if let Some(d) = me.fns.get(&format!("from_{e}{bob}_with_defaults")).copied() {
                self.go(me, obl("P09", d, "any value".into(), vec![raw(&v)], Ret::Me(rd)), any_custom);
            }
            if let Some(d) = me.fns.get(&format!("into_{e}{bob}")).copied() {
                self.go(me, obl("P07", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Bits(into(ile, &s))), false);
            }
            // writes: for arrays the pinned convention is the opposite of from_*
            let flip = wle;
            let x = if flip { byterev(&v) } else { v.clone() };
            let x = t.canon(&x);
            let mut w = s.clone();
            for f in &t.fields {
                if f.writable() {
                    w = with(&w, f, &x[f.off..f.off + f.w].to_vec());
                }
            }
            if let Some(d) = me.fns.get(&format!("write_{e}{bob}")).copied() {
                let o = obl("P10", d, "any state, any value".into(), vec![Arg::Me(s.clone()), raw(&v)], Ret::Unit)
                    .post(w.clone())
                    .prot(prot.clone());
                self.go(me, o, any_custom);
            }
            if let Some(d) = me.fns.get(&format!("write_{e}{bob}_with_defaults")).copied() {
                let o = obl("P10", d, "any state, any value".into(), vec![Arg::Me(s.clone()), raw(&v)], Ret::Unit)
                    .post(t.apply_defaults(&w, |_| true));
                self.go(me, o, any_custom);
            }
        }
        if let Some(d) = me.fns.get("write_defaults").copied() {
            let o = obl("P10", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Unit).post(t.apply_defaults(&s, |_| true));
            self.go(me, o, any_custom);
        }
        for (tr, targ, ms) in &me.impls {
            if tr.ends_with("::From") {
                if let Some(d) = ms.get("from").copied() {
                    if targ == "into" {
                        self.go(
                            me,
                            obl("P07", d, "From<bitfield>, any state".into(), vec![Arg::Me(s.clone())], Ret::Bits(into(t.into_le, &s))),
                            false,
                        );
                    } else {
                        self.go(me, obl("P07", d, "From<backing>, any value".into(), vec![raw(&v)], Ret::Me(from(t.from_le, &v))), any_custom);
                    }
                }
            }
        }

        // ---- slices
        if t.arr && self.want(&["P08", "P09", "P16", "P25", "P26"]) {
            self.slice_obligations(me, &s);
        }

        // ---- whole-bitfield clear / invert
        for (nm, b) in [
            (format!("clear_{bob}"), &nwd_bits),
            (format!("clear_{bob}_with_defaults"), &new_bits),
        ] {
            if let Some(d) = me.fns.get(&nm).copied() {
                let o = obl("P14", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Unit).post(b.clone());
                self.go(me, o, any_custom);
            }
        }
        if let Some(d) = me.fns.get(&format!("invert_{bob}")).copied() {
            let mut r = s.clone();
            for f in &t.fields {
                let fb: Vec<Bit> = s[f.off..f.off + f.w].to_vec();
                if f.writable() {
                    let ib: Vec<Bit> = fb.iter().map(|b| not(*b)).collect();
                    r = with(&r, f, &f.ty.canon(&ib));
                }
            }
            let o = obl("P15", d, "any state".into(), vec![Arg::Me(s.clone())], Ret::Unit).post(r).prot(prot.clone());
            self.go(me, o, any_custom);
        }

        // ---- bit ops
        if self.want(&["P12", "P11", "P16", "P25", "P26"]) {
            self.bit_obligations(me, &s);
        }
        if self.want(&["P13", "P11", "P16", "P25", "P26"]) {
            self.range_obligations(me, &s);
        }

        // ---- Debug
        if self.want(&["P24", "P16"]) {
            for (tr, _, ms) in &me.impls {
                if tr.ends_with("::Debug") {
                    if let Some(d) = ms.get("fmt").copied() {
                        let mut o = obl("P24", d, "any state".into(), vec![Arg::Me(s.clone()), Arg::Fmt], Ret::Any);
                        o.trace = Some(
                            t.fields
                                .iter()
                                .map(|f| (f.name.clone(), s[f.off..f.off + f.w].to_vec(), !matches!(f.ty, FTy::Int(_))))
                                .collect(),
                        );
                        self.go(me, o, false);
                    }
                }
            }
        }
    }

    fn slice_obligations(&mut self, me: &Me<'tcx>, s: &[Bit]) {
        let t = &me.st;
        let nb = t.bits / 8;
        let mut lens: BTreeSet<usize> = BTreeSet::new();
        if nb <= 12 {
            lens.extend(0..=nb + 2);
        } else {
            lens.extend([0, 1, 2, nb / 2, nb - 2, nb - 1, nb, nb + 1, nb + 2]);
        }
        lens.insert(2 * nb + 1);
        for l in &t.lits {
            if *l <= 3 * nb as u128 {
                lens.insert(*l as usize);
            }
        }
        let mut cases: Vec<(String, usize, IntV, bool)> = lens
            .iter()
            .map(|l| (format!("slice of {l} bytes"), *l, IntV { bits: kbits(*l as u128, 64), rng: None }, false))
            .collect();
        // open-ended class: every longer slice
        let big = IntV { bits: named("n", 64), rng: Some((nb as u128 + 1, (1u128 << 63) - 1)) };
        cases.push(("any slice longer than the bitfield".into(), nb + 1, big, true));
        for (e, le, ile) in [("", t.from_le, t.into_le), ("le_", true, true), ("be_", false, false)] {
            for (what, l, len, soft) in &cases {
                let x = named("x", 8 * l);
                let mut b = x[..8 * (*l).min(nb)].to_vec();
                b.resize(t.bits, F);
                let b = t.canon(&if le { b } else { byterev(&b) });
                let bd = t.apply_defaults(&b, |_| true);
                let rng = if *soft { vec![(len.clone(), "len".to_string())] } else { vec![] };
                let short = *l < nb;
                for (nm, res, p) in
                    [(format!("from_{e}slice"), &b, "P08"), (format!("from_{e}slice_with_defaults"), &bd, "P09")]
                {
                    if let Some(d) = me.fns.get(&nm).copied() {
                        let mut o = obl(p, d, what.clone(), vec![Arg::Slice(x.clone(), len.clone())], Ret::Me(res.clone()));
                        o.rng = rng.clone();
                        o.soft = *soft;
                        o.slice = Some(x.clone());
                        if p == "P09" {
                            o.extra.push("P08");
                        }
                        self.go(me, o, false);
                    }
                    if let Some(d) = me.fns.get(&format!("checked_{nm}")).copied() {
                        let ret = if short { Ret::Err } else { Ret::Ok(Box::new(Ret::Me(res.clone()))) };
                        let mut o = obl(p, d, what.clone(), vec![Arg::Slice(x.clone(), len.clone())], ret);
                        o.rng = rng.clone();
                        o.soft = *soft;
                        o.slice = Some(x.clone());
                        if p == "P09" {
                            o.extra.push("P08");
                        }
                        self.go(me, o, false);
                    }
                }
                let out = if ile { s.to_vec() } else { byterev(s) };
                let mut full = x.clone();
                for k in 0..full.len().min(out.len()) {
                    full[k] = out[k];
                }
                if let Some(d) = me.fns.get(&format!("into_{e}slice")).copied() {
                    let mut o =
                        obl("P08", d, what.clone(), vec![Arg::Me(s.to_vec()), Arg::Slice(x.clone(), len.clone())], Ret::Unit);
                    o.slice = Some(full.clone());
                    o.rng = rng.clone();
                    o.soft = *soft;
                    self.go(me, o, false);
                }
                if let Some(d) = me.fns.get(&format!("checked_into_{e}slice")).copied() {
                    let ret = if short { Ret::Err } else { Ret::Ok(Box::new(Ret::Unit)) };
                    let mut o = obl("P08", d, what.clone(), vec![Arg::Me(s.to_vec()), Arg::Slice(x.clone(), len.clone())], ret);
                    o.slice = Some(if short { x.clone() } else { full.clone() });
                    o.rng = rng.clone();
                    o.soft = *soft;
                    self.go(me, o, false);
                }
            }
        }
    }

    fn bit_obligations(&mut self, me: &Me<'tcx>, s: &[Bit]) {
        let t = &me.st;
        let n = t.bits;
        let prot = t.protected();
        let hidden = t.hidden();
        let b = named("b", 1)[0];
        let mut offs: Vec<usize> = (0..n).collect();
        if n > 160 {
            let mut set: BTreeSet<usize> = BTreeSet::new();
            for f in &t.fields {
                for k in [f.off, f.off + 1, f.off + f.w / 2, f.off + f.w - 1] {
                    set.insert(k.min(n - 1));
                }
            }
            set.extend((0..n).step_by(8));
            set.extend(t.lits.iter().filter(|l| **l < n as u128).map(|l| *l as usize));
            offs = set.into_iter().collect();
        }
        let mut cases: Vec<(String, Val, Option<usize>, Vec<(IntV, String)>)> =
            offs.iter().map(|o| (format!("offset {o}"), int_const(*o as u128, 32), Some(*o), vec![])).collect();
        let big = IntV { bits: named("o", 32), rng: Some((n as u128, u32::MAX as u128)) };
        cases.push(("any offset past the end".into(), Val::Int(Rc::new(big.clone())), None, vec![(big, "offset".into())]));
        for (what, ov, off, rng) in cases {
            let rd_ok = off.map(|o| !hidden.contains(&o)).unwrap_or(false);
            let wr_ok = off.map(|o| !prot.contains(&o)).unwrap_or(false);
            let cur = match off {
                Some(o) if rd_ok => s[o],
                _ => F,
            };
            let mut set = s.to_vec();
            if let (Some(o), true) = (off, wr_ok) {
                set[o] = b;
            }
            let args = vec![Arg::Me(s.to_vec()), Arg::Val(ov.clone())];
            if let Some(d) = me.fns.get("get_bit").copied() {
                let mut o = obl("P12", d, what.clone(), args.clone(), Ret::Bits(vec![cur])).prot(hidden.clone());
                o.rng = rng.clone();
                self.go(me, o, false);
            }
            if let Some(d) = me.fns.get("checked_get_bit").copied() {
                let ret = if rd_ok { Ret::Ok(Box::new(Ret::Bits(vec![cur]))) } else { Ret::Err };
                let mut o = obl("P12", d, what.clone(), args.clone(), ret).prot(hidden.clone());
                o.rng = rng.clone();
                self.go(me, o, false);
            }
            let mut args = args;
            args.push(Arg::Val(boolv(b)));
            if let Some(d) = me.fns.get("set_bit").copied() {
                let mut o = obl("P12", d, what.clone(), args.clone(), Ret::Unit).post(set.clone()).prot(prot.clone());
                o.rng = rng.clone();
                self.go(me, o, false);
            }
            if let Some(d) = me.fns.get("checked_set_bit").copied() {
                let ret = if wr_ok { Ret::Ok(Box::new(Ret::Unit)) } else { Ret::Err };
                let mut o = obl("P12", d, what.clone(), args.clone(), ret).post(set.clone()).prot(prot.clone());
                o.rng = rng.clone();
                self.go(me, o, false);
            }
        }
    }

    fn range_obligations(&mut self, me: &Me<'tcx>, s: &[Bit]) {
        let t = &me.st;
        let n = t.bits;
        let prot = t.protected();
        let hidden = t.hidden();
        let bob = if t.arr { "bytes" } else { "bits" };
        if !["get_", "checked_get_", "set_", "checked_set_"].iter().any(|p| me.fns.contains_key(&format!("{p}{bob}_range"))) {
            return;
        }
        let v = named("v", n);
        let m32 = u32::MAX as u128;
        // (offset, length): exact pairs
        let mut pairs: BTreeSet<(u128, u128)> = BTreeSet::new();
        let all = t.range_mode == "all";
        let mut offs: BTreeSet<u128> = BTreeSet::new();
        let mut lens: BTreeSet<u128> = BTreeSet::new();
        if all {
            offs.extend(0..n as u128);
            lens.extend(0..=n as u128);
        } else {
            for f in &t.fields {
                for k in [f.off as i64 - 1, f.off as i64, f.off as i64 + 1] {
                    if k >= 0 && k < n as i64 {
                        offs.insert(k as u128);
                    }
                }
                lens.insert(f.w as u128);
            }
            for k in [0usize, 1, 7, 8, 9, n / 2, n - 1] {
                offs.insert(k as u128);
                lens.insert(k as u128);
            }
            lens.insert(n as u128);
            for l in &t.lits {
                if *l < n as u128 {
                    offs.insert(*l);
                    lens.insert(*l);
                }
            }
        }
        for o in &offs {
            for l in &lens {
                if o + l <= n as u128 {
                    pairs.insert((*o, *l));
                }
            }
            // boundary of the range check
            pairs.insert((*o, n as u128 - o));
        }
        let mut cases: Vec<(String, Val, Val, Option<(usize, usize)>, Vec<(IntV, String)>)> = vec![];
        for (o, l) in &pairs {
            cases.push((
                format!("offset {o} length {l}"),
                int_const(*o, 32),
                int_const(*l, 32),
                Some((*o as usize, *l as usize)),
                vec![],
            ));
        }
        // open classes: offset inside, length too long
        for o in &offs {
            let lo = n as u128 - o + 1;
            let iv = IntV { bits: named("l", 32), rng: Some((lo, m32)) };
            cases.push((
                format!("offset {o}, any length past the end"),
                int_const(*o, 32),
                Val::Int(Rc::new(iv.clone())),
                None,
                vec![(iv, "length".into())],
            ));
        }
        // any offset past the end, any length
        let ov = IntV { bits: named("o", 32), rng: Some((n as u128, m32)) };
        for (lo, hi) in [(0u128, 0u128), (1, m32)] {
            let lv = IntV { bits: if lo == hi { kbits(lo, 32) } else { named("l", 32) }, rng: if lo == hi { None } else { Some((lo, hi)) } };
            cases.push((
                format!("any offset past the end, length in {lo}..={hi}"),
                Val::Int(Rc::new(ov.clone())),
                Val::Int(Rc::new(lv.clone())),
                None,
                vec![(ov.clone(), "offset".into()), (lv, "length".into())],
            ));
        }
        let fns: Vec<Option<DefId>> = ["get_", "checked_get_", "set_", "checked_set_"]
            .iter()
            .map(|p| me.fns.get(&format!("{p}{bob}_range")).copied())
            .collect();
        for (what, ov, lv, ok, rng) in cases {
            let mut got = vec![F; n];
            let mut rd_ok = ok.is_some();
            let mut wr_ok = ok.is_some();
            let mut set = s.to_vec();
            if let Some((o, l)) = ok {
                for k in 0..l {
                    if hidden.contains(&(o + k)) {
                        rd_ok = false;
                    } else {
                        got[k] = s[o + k];
                    }
                    if prot.contains(&(o + k)) {
                        wr_ok = false;
                    } else {
                        set[o + k] = v[k];
                    }
                }
            }
            let args = vec![Arg::Me(s.to_vec()), Arg::Val(ov.clone()), Arg::Val(lv.clone())];
            let mut wargs = args.clone();
            wargs.push(Arg::Val(int_bits(v.clone())));
            let mut list = vec![];
            if let Some(d) = fns[0] {
                list.push(obl("P13", d, what.clone(), args.clone(), Ret::Bits(got.clone())).prot(hidden.clone()));
            }
            if let Some(d) = fns[1] {
                let ret = if rd_ok { Ret::Ok(Box::new(Ret::Bits(got.clone()))) } else { Ret::Err };
                list.push(obl("P13", d, what.clone(), args.clone(), ret).prot(hidden.clone()));
            }
            if let Some(d) = fns[2] {
                list.push(obl("P13", d, what.clone(), wargs.clone(), Ret::Unit).post(set.clone()).prot(prot.clone()));
            }
            if let Some(d) = fns[3] {
                let ret = if wr_ok { Ret::Ok(Box::new(Ret::Unit)) } else { Ret::Err };
                let post = if wr_ok { set.clone() } else { s.to_vec() };
                list.push(obl("P13", d, what.clone(), wargs.clone(), ret).post(post).prot(prot.clone()));
            }
            for mut o in list {
                o.rng = rng.clone();
                self.go(me, o, false);
            }
        }
    }

    pub fn flag_obligations(&mut self, spec: &Value, ty: Ty<'tcx>, fns: &HashMap<String, DefId>) {
        let FTy::Flag { w, base, vals } = parse_ty(spec) else { return };
        let fle = spec["from_endian"] == "little";
        let ile = spec["into_endian"] == "little";
        let me = Me {
            st: St {
                id: spec["id"].as_str().unwrap().into(),
                name: spec["name"].as_str().unwrap().into(),
                arr: false,
                heap: false,
                bits: w,
                fields: vec![],
                from_le: fle,
                into_le: ile,
                write_le: false,
                ignored: vec![],
                range_mode: String::new(),
                debug_name: String::new(),
                lits: vec![],
            },
            ty,
            def: fns.values().next().copied().unwrap_or(rustc_span::def_id::CRATE_DEF_ID.to_def_id()),
            fns: HashMap::new(),
            bfns: HashMap::new(),
            consts: HashMap::new(),
            impls: vec![],
            bimpls: vec![],
            backing: 0,
            nfields: 0,
        };
        if let Some(d) = fns.get("from_bits").copied() {
            let v = named("v", w);
            let x = if fle { byterev(&v) } else { v.clone() };
            let o = obl("P17", d, "any bits".into(), vec![Arg::Val(int_bits(v))], Ret::Flag(FTy::Flag { w, base, vals: vals.clone() }, x));
            self.check(&me, o);
        } else {
            self.absent.insert(format!("{}::from_bits", me.st.id));
        }
        if let Some(d) = fns.get("into_bits").copied() {
            for (i, v) in vals.iter().enumerate() {
                let b = kbits(*v, w);
                let o = obl(
                    "P17",
                    d,
                    format!("variant {i}"),
                    vec![Arg::Val(Val::Enum(i as u32, Rc::new(vec![])))],
                    Ret::Bits(if ile { byterev(&b) } else { b }),
                );
                self.check(&me, o);
            }
        } else {
            self.absent.insert(format!("{}::into_bits", me.st.id));
        }
    }
}

// ---------------------------------------------------------------- entry point

pub fn analyse(tcx: TyCtxt<'_>, spec_file: &str, out_file: &str) {
    let text = std::fs::read_to_string(spec_file).expect("spec");
    let spec: Value = serde_json::from_str(&text).expect("spec json");
    let props: BTreeSet<String> = std::env::var("BFCHECK_PROPS")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut cx = Cx {
        tcx,
        eng: Eng::new(tcx),
        props,
        out: vec![],
        counts: Default::default(),
        fns: Default::default(),
        absent: Default::default(),
        deadline: std::env::var("BFCHECK_DEADLINE")
            .ok()
            .and_then(|s| s.parse::<u64>().ok())
            .map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s)),
        skipped: 0,
    };
    std::panic::set_hook(Box::new(|_| {}));
    // every local ADT by "module::Name"
    let mut adts: HashMap<String, DefId> = HashMap::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            adts.insert(tcx.def_path_str(d), d);
        }
    }
    let api = crate::api::dump(tcx, &adts);
    let (bodies, unsafes) = crate::api::unsafes(tcx);
    let mut impls: HashMap<DefId, Vec<(String, String, HashMap<String, DefId>)>> = HashMap::new();
    for (tr, list) in tcx.all_local_trait_impls(()) {
        for im in list {
            let tref = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let name = tcx.def_path_str(*tr);
            let mut ms = HashMap::new();
            for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                ms.insert(it.name().to_string(), it.def_id);
            }
            let selfty = tref.self_ty();
            if let ty::Adt(a, _) = selfty.kind() {
                impls.entry(a.did()).or_default().push((name.clone(), "self".into(), ms.clone()));
            }
            if name.ends_with("::From") {
                let t = tref.args.type_at(1);
                if let ty::Adt(a, _) = t.kind() {
                    if !matches!(selfty.kind(), ty::Adt(..)) || a.did().is_local() {
                        impls.entry(a.did()).or_default().push((name, "into".into(), ms));
                    }
                }
            }
        }
    }
    let methods = |d: DefId| -> (HashMap<String, DefId>, HashMap<String, DefId>) {
        let mut f = HashMap::new();
        let mut c = HashMap::new();
        for im in tcx.inherent_impls(d) {
            for it in tcx.associated_items(*im).in_definition_order() {
                match tcx.def_kind(it.def_id) {
                    DefKind::AssocFn => {
                        f.insert(it.name().to_string(), it.def_id);
                    }
                    DefKind::AssocConst { .. } => {
                        c.insert(it.name().to_string(), it.def_id);
                    }
                    _ => {}
                }
            }
        }
        (f, c)
    };
    let mut missing = vec![];
    let mut storage = vec![];
    let mut structs = 0;
    for v in spec["structs"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let st = parse_struct(v);
        let path = format!("{}::{}", st.id, st.name);
        let Some(def) = adts.get(&path).copied() else {
            missing.push(path);
            continue;
        };
        dom::reset();
        NAMED.with(|m| m.borrow_mut().clear());
        cx.eng.clear_state();
        let adt = tcx.adt_def(def);
        let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        // the backing field: the one whose type is the backing type
        let fields: Vec<(String, Ty<'_>)> = adt
            .non_enum_variant()
            .fields
            .iter()
            .map(|f| (f.name.to_string(), f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, def)).skip_norm_wip()))
            .collect();
        let backing = fields.iter().position(|(nm, t)| {
            !st.ignored.contains(nm) && {
                let t = t.boxed_ty().unwrap_or(*t);
                nbits(tcx, t) == st.bits
            }
        });
        let Some(backing) = backing else {
            missing.push(format!("{path} (backing field)"));
            continue;
        };
        // judge the operations on the storage that is there; a different storage than declared is reported apart
        let boxed_now = fields[backing].1.boxed_ty().is_some();
        let mut st = st;
        if boxed_now != st.heap {
            storage.push(json!({"struct": st.id, "declared": if st.heap { "heap" } else { "stack" }, "actual": format!("{}", fields[backing].1)}));
            st.heap = boxed_now;
        }
        let (fns, consts) = methods(def);
        let bdef = adts.get(&format!("{path}Builder")).copied();
        let bfns = bdef.map(|b| methods(b).0).unwrap_or_default();
        let me = Me {
            ty,
            def,
            fns,
            consts,
            bfns,
            impls: impls.get(&def).cloned().unwrap_or_default(),
            bimpls: bdef.and_then(|b| impls.get(&b).cloned()).unwrap_or_default(),
            backing,
            nfields: fields.len(),
            st,
        };
        structs += 1;
        let t0 = std::time::Instant::now();
        cx.struct_obligations(&me);
        if std::env::var("BFCHECK_TIME").is_ok() {
            eprintln!("{} {:?} forms={}", me.st.id, t0.elapsed(), dom::size());
        }
    }
    let mut flags = 0;
    for v in spec["flags"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        let path = format!("{}::{}", v["id"].as_str().unwrap(), v["name"].as_str().unwrap());
        let Some(def) = adts.get(&path).copied() else {
            missing.push(path);
            continue;
        };
        dom::reset();
        NAMED.with(|m| m.borrow_mut().clear());
        cx.eng.clear_state();
        let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        let (fns, _) = methods(def);
        flags += 1;
        cx.flag_obligations(v, ty, &fns);
    }
    let out = json!({
        "structs": structs,
        "flags": flags,
        "missing": missing,
        "storage": storage,
        "absent": cx.absent,
        "skipped": cx.skipped,
        "results": cx.out,
        "counts": cx.counts,
        "functions": cx.fns,
        "mir_functions": cx.eng.fns_seen,
        "steps": cx.eng.total_steps,
        "forks": cx.eng.forks,
        "joins": cx.eng.joins,
        "api": api,
        "bodies": bodies,
        "unsafes": unsafes,
    });
    std::fs::write(out_file, serde_json::to_string(&out).unwrap()).expect("write results");
}
