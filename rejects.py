"""Compile-fail witnesses and their compiling twins.

Each case is (family: description, module text).  A rejected case breaks exactly
one documented rule; the rules come from the README, the boundaries from the
declared widths.  MID is replaced by the module's name.
"""
import random

from gen import INTS, UINTS, natural

U = "use bitfields::{bitfield, bitflag};"


def mod(body):
    return "pub mod MID {\n%s\n%s\n}" % (U, body)


def st(backing, fields, args="", vis="pub "):
    return mod("#[bitfield(%s%s)]\n%sstruct S {\n%s\n}" % (backing, args, vis, "\n".join("    " + f + "," for f in fields)))


def fill(n, skip=0):
    """unreserved filler fields of n bits in total"""
    out, i = [], 0
    while n > 0:
        w = min(n, 128)
        ty = next(t for t in UINTS if UINTS[t] >= w)
        out.append("#[bits(%d)] z%d: %s" % (w, i + skip, ty))
        n -= w
        i += 1
    return out


def backing_for(n):
    """an array backing of at least n bits, and its width"""
    k = (n + 7) // 8
    return "[u8; %d]" % k, 8 * k


def forms(v):
    s = "-" if v < 0 else ""
    a = abs(v)
    return [str(v), s + hex(a), s + bin(a), s + oct(a)]


def cases(tier, seed, lits):
    rng = random.Random(4242 + seed)
    bad, good = [], []
    big = tier != "quick"
    backs = list(UINTS) + ["[u8; 1]", "[u8; 3]", "[u8; 16]", "[u8; 17]", "[u8; 40]"]

    # --- 1. the fields' bits must add up to the backing type exactly
    for b in backs:
        n = natural(b)
        for order in ("", ", order = msb", ", order = lsb"):
            for d in (-n + 1, -8, -7, -2, -1, 1, 2, 7, 8, n, 2 * n):
                t = n + d
                if t < 1:
                    continue
                for shape in ("one", "two", "reserved", "ignored", "bytes"):
                    if shape != "one" and t < 2:
                        continue
                    if shape == "one":
                        fs = fill(t)
                    elif shape == "two":
                        k = rng.randint(1, min(t - 1, 8))
                        fs = ["#[bits(%d)] a: u8" % k] + fill(t - k)
                    elif shape == "reserved":
                        k = rng.randint(1, min(t - 1, 8))
                        fs = fill(t - k) + ["#[bits(%d)] _r: u8" % k]
                    elif shape == "ignored":
                        # an ignored field contributes nothing, whatever its size
                        fs = ["#[bits(ignore = true)] x: u64"] + fill(t)
                    else:
                        if t % 8 or t < 16:
                            continue
                        fs = ["a: [u8; %d]" % (t // 8 - 1), "b: u8"]
                    bad.append(("total bits: %s %d of %d%s %s" % (b, t, n, order, shape), st(b, fs, order)))
            good.append(("total bits: %s exact%s" % (b, order), st(b, fill(n), order)))
            good.append(("total bits: %s exact with ignored%s" % (b, order), st(b, ["#[bits(ignore = true)] x: u64"] + fill(n), order)))
            if n > 8:
                good.append(("total bits: %s exact reserved%s" % (b, order), st(b, fill(n - 5) + ["#[bits(5)] _r: u8"], order)))
    # bit counts whose sum does not fit 32 bits
    for b in ("u8", "u32", "u128", "[u8; 3]"):
        n = natural(b)
        for order in ("", ", order = msb"):
            for parts in ((0xFFFFFFFF, n + 1), (n // 2, 0xFFFFFFFF, n - n // 2 + 1), (0x80000000, 0x80000000, n), (0xFFFFFFFF, 1, n), (0xFFFFFF00, 256 + n)):
                fs = ["#[bits(%d)] f%d: %s" % (k, i, "crate::types::Id8" if k > 128 else "u8" if k <= 8 else "u128") for i, k in enumerate(parts)]
                if parts[-1] > 128:
                    fs[-1] = fs[-1].rsplit(":", 1)[0] + ": crate::types::Id8"
                bad.append(("total bits: %s overflowing sum%s %s" % (b, order, parts), st(b, fs, order)))
    # --- 2. a field's type must hold its bits
    types = list(UINTS) + list(INTS) + ["bool"] + ["[u8; %d]" % k for k in (1, 2, 3, 7, 16, 17)]
    for ty in types:
        nat = natural(ty)
        over = sorted({nat + 1, nat + 2, nat + 7, nat + 8, 2 * nat, 2 * nat + 1} | {x for x in lits if nat < x <= 300})
        for w in over:
            for pos in ("first", "last"):
                b, n = backing_for(w + 3)
                f = "#[bits(%d)] a: %s" % (w, ty)
                fs = [f] + fill(n - w) if pos == "first" else fill(n - w) + [f]
                bad.append(("type too small: %s in %d bits %s" % (ty, w, pos), st(b, fs)))
            for nm, acc in (("a", ", access = ro"), ("_a", "")):
                b, n = backing_for(w)
                bad.append(("type too small: %s in %d bits%s%s" % (ty, w, acc, nm), st(b, ["#[bits(%d%s)] %s: %s" % (w, acc, nm, ty)] + fill(n - w))))
        b, n = backing_for(nat + 1)
        good.append(("type too small: %s in %d bits fits" % (ty, nat), st(b, ["#[bits(%d)] a: %s" % (nat, ty)] + fill(n - nat))))
        if ty in UINTS or ty in INTS:
            for w in sorted({nat + 1, nat + 8} & set(range(129))):
                for ib in UINTS:
                    if UINTS[ib] > w:
                        bad.append(("type too small: %s in %d bits of %s" % (ty, w, ib), st(ib, ["#[bits(%d)] a: %s" % (w, ty)] + fill(UINTS[ib] - w))))
    # --- 3. bit counts
    for b in ("u8", "u64", "[u8; 4]"):
        n = natural(b)
        for w in ("0", "-1", "1.5", '"4"', "4u8", "0x0", "true", "4294967296", "340282366920938463463374607431768211456"):
            for ty in ("u8", "crate::types::Id8"):
                bad.append(("bit count: %s %s in %s" % (w, ty, b), st(b, ["#[bits(%s)] a: %s" % (w, ty)] + fill(n))))
        bad.append(("bit count: attribute without list", st(b, ["#[bits] a: u8"] + fill(n - 8) )))
        bad.append(("bit count: attribute as value", st(b, ["#[bits = 8] a: u8"] + fill(n - 8))))
        for ty in ("crate::types::Id8", "crate::types::Fl2", "crate::types::Nest8"):
            bad.append(("bit count: custom type without bits, %s in %s" % (ty, b), st(b, ["a: %s" % ty] + fill(n - 8))))
            bad.append(("bit count: custom type without bits, %s in %s" % (ty, b), st(b, ["#[bits(access = ro)] a: %s" % ty] + fill(n - 8))))
        good.append(("bit count: hex", st(b, ["#[bits(0x8)] a: u8"] + fill(n - 8))))
    # --- 4. literal defaults must fit
    for ty in list(UINTS) + list(INTS):
        nat = natural(ty)
        sweep = range(1, nat + 1) if big or nat <= 16 else sorted({1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, nat - 1, nat} | {x for x in lits if x <= nat} & set(range(1, nat + 1)) | {nat // 2})
        for w in sweep:
            if not 1 <= w <= nat:
                continue
            fm = rng.randrange(4)
            over = {1 << w, (1 << w) + 1, (1 << (w + 1))} | ({(1 << w) + (1 << 32)} if w > 8 else set())
            for v in over:
                k = rng.randrange(4)
                variants = forms(v) if (w in (1, 8, 32, nat) or big) else [forms(v)[k]]
                for lit in variants:
                    for ib in ("arr", "int"):
                        if ib == "arr":
                            b, n = backing_for(w + 1)
                        else:
                            b = next((t for t in UINTS if UINTS[t] >= w), None)
                            n = UINTS[b]
                            if rng.random() < 0.5:
                                continue
                        bad.append(("default too large: %s %d bits %s %s" % (ty, w, lit, ib), st(b, ["#[bits(%d, default = %s)] a: %s" % (w, lit, ty)] + fill(n - w))))
            acc = rng.choice([", access = ro", ", access = wo", ", access = na"])
            b, n = backing_for(w)
            bad.append(("default too large: %s %d bits%s" % (ty, w, acc), st(b, ["#[bits(%d%s, default = %d)] a: %s" % (w, acc, 1 << w, ty)] + fill(n - w))))
            bad.append(("default too large: %s %d bits reserved" % (ty, w), st(b, ["#[bits(%d, default = %d)] _a: %s" % (w, 1 << w, ty)] + fill(n - w))))
            top = (1 << w) - 1 if ty in UINTS else (1 << (w - 1)) - 1
            for lit in forms(top) if w in (1, 8, 32, nat) else [forms(top)[fm]]:
                b, n = backing_for(w)
                good.append(("default fits: %s %d bits %s" % (ty, w, lit), st(b, ["#[bits(%d, default = %s)] a: %s" % (w, lit, ty)] + fill(n - w))))
            if ty in INTS:
                lo = -(1 << (w - 1))
                # -(2^127 + 1) and beyond must not wrap around in the check itself
                far = {-(1 << 127) - 1, -(1 << 128) + 1, -(1 << 128) + (1 << (w - 1)), -(1 << 127) - (1 << 40)}
                unders = {lo - 1, lo - 2, 2 * lo - 1} | (far if w % 3 == 1 or w > 100 else set()) if w < 127 else ({lo - 1, -(1 << 128) + 1} if w < 128 else set())
                for v in unders:
                    b, n = backing_for(w)
                    bad.append(("default too small: %s %d bits %d" % (ty, w, v), st(b, ["#[bits(%d, default = %d)] a: %s" % (w, v, ty)] + fill(n - w))))
                b, n = backing_for(w)
                good.append(("default fits: %s %d bits %d" % (ty, w, lo), st(b, ["#[bits(%d, default = %d)] a: %s" % (w, lo, ty)] + fill(n - w))))
            else:
                b, n = backing_for(w)
                bad.append(("negative default of unsigned: %s %d bits" % (ty, w), st(b, ["#[bits(%d, default = -1)] a: %s" % (w, ty)] + fill(n - w))))
            if ty == "u64" and w > 1:
                # array fields of integer bitfields take integer literals
                b = next(t for t in UINTS if UINTS[t] > w)
                at = "[u8; %d]" % ((w + 7) // 8)
                for nm, acc in (("a", ""), ("a", ", access = ro"), ("_a", "")):
                    for v in (1 << w, (1 << w) + (1 << (w // 2)), 1 << 127, -1):
                        bad.append(("default of array field: %s %d bits %d%s %s" % (at, w, v, acc, nm), st(b, ["#[bits(%d, default = %s%s)] %s: %s" % (w, v, acc, nm, at)] + fill(UINTS[b] - w))))
                    good.append(("default of array field fits: %s %d bits%s %s" % (at, w, acc, nm), st(b, ["#[bits(%d, default = %s%s)] %s: %s" % (w, (1 << w) - 1, acc, nm, at)] + fill(UINTS[b] - w))))
        if ty == "i128":
            bad.append(("default too small: i128 128 bits", st("u128", ["#[bits(128, default = -170141183460469231731687303715884105729)] a: i128"])))
        # without a bit count the type's own width counts
        if nat < 128:
            bad.append(("default too large: %s without bits" % ty, st("u128", ["#[bits(default = %d)] a: %s" % (1 << nat, ty)] + fill(128 - nat))))
        else:
            bad.append(("default too large: %s without bits" % ty, st("u128", ["#[bits(default = %d)] a: %s" % (1 << nat, ty)])))
        for fl in ("1.5", "1.", "1e1", "1E+1", "1e1f32", "1f32", "1_0f64", "1.0f64", "0.5e1", "1_f32") + (("-1.0", "-1e1", "-1f32") if ty in INTS else ()):
            bad.append(("default is a float: %s %s" % (ty, fl), st("u128", ["#[bits(default = %s)] a: %s" % (fl, ty)] + fill(128 - nat))))
        for ex in ("1 + crate::types::TUP.0", "20 - crate::types::TUP.0", "(1, 2).0", "1u8 as %s" % ty, "0x1_0 / 0xf"):
            good.append(("default is an expression: %s %s" % (ty, ex), st("u128", ["#[bits(default = (%s) as %s)] a: %s" % (ex, ty, ty)] + fill(128 - nat))))
            good.append(("default is an expression: %s %s bare" % (ty, ex), st("u128", ["#[bits(default = %s)] a: %s" % (ex, ty)] + fill(128 - nat))))
        bad.append(("default is a string: %s" % ty, st("u128", ['#[bits(default = "1")] a: %s' % ty] + fill(128 - nat))))
        for suf in ("q8", "u7", "f32", "u256"):
            bad.append(("default with bad suffix: %s 1%s" % (ty, suf), st("u128", ["#[bits(default = 1%s)] a: %s" % (suf, ty)] + fill(128 - nat))))
    bad.append(("default too large: bool", st("u8", ["#[bits(default = 2)] a: bool"] + fill(7))))
    good.append(("default fits: bool", st("u8", ["#[bits(default = true)] a: bool"] + fill(7))))
    # --- 5. names
    for b in ("u16", "[u8; 2]"):
        bad.append(("duplicate name: plain", st(b, ["a: u8", "a: u8"])))
        bad.append(("duplicate name: different types", st(b, ["#[bits(4)] a: u8", "#[bits(4)] b: u8", "#[bits(8)] a: i8"])))
        bad.append(("duplicate name: ignored and not", st(b, ["a: u8", "b: u8", "#[bits(ignore = true)] a: u32"])))
        bad.append(("duplicate name: both ignored", st(b, ["a: u8", "b: u8", "#[bits(ignore = true)] x: u32", "#[bits(ignore = true)] x: u32"])))
        bad.append(("duplicate name: ignored first", st(b, ["#[bits(ignore = true)] a: u32", "a: u8", "b: u8"])))
        good.append(("duplicate name: reserved may repeat", st(b, ["#[bits(4)] _r: u8", "#[bits(4)] a: u8", "#[bits(4)] _r: u8", "#[bits(4)] b: u8"])))
    # --- 6. field types that cannot be bit fields
    for b in ("u64", "[u8; 8]"):
        for ty in ("usize", "isize", "f32", "f64", "[u16; 2]", "[i8; 2]", "[u32; 1]", "[bool; 8]", "[f32; 1]", "[u8; 0]", "[u8; N]", "(u8, u8)", "&'static u8", "[[u8; 2]; 2]", "[usize; 2]", "[u8]", "fn(u8) -> u8", "*const u8"):
            for pre in ("", "#[bits(16)] "):
                bad.append(("unsupported field type: %s %s in %s" % (pre, ty, b), st(b, ["%sa: %s" % (pre, ty)] + fill(48)).replace(U, U + " const N: usize = 2;")))
                bad.append(("unsupported field type: %s %s in %s reserved" % (pre, ty, b), st(b, ["%s_a: %s" % (pre, ty)] + fill(48)).replace(U, U + " const N: usize = 2;")))
    # --- 7. backing types
    for b in ("usize", "isize", "i8", "i16", "i32", "i64", "i128", "bool", "f32", "f64", "char", "String", "&u8", "(u8, u8)", "[u16; 2]", "[i8; 2]", "[u8; 0]", "[u8; N]", "[bool; 8]", "[f32; 2]",
              "[usize; 1]", "[u8]", "[u8; -1]", "[u8; 1.0]", "[u8; 4294967296]", "u256", "8", '"u8"', "", "order = msb", "crate::types::Id8", "[[u8; 1]; 2]"):
        n = {"i16": 16, "i32": 32, "i64": 64, "i128": 128, "usize": 64, "isize": 64, "f32": 32, "f64": 64, "[u16; 2]": 32, "[i8; 2]": 16, "(u8, u8)": 16, "[u8; N]": 16, "[bool; 8]": 8, "[f32; 2]": 64, "[usize; 1]": 64, "char": 32}.get(b, 8)
        bad.append(("unsupported backing type: %s" % b, st(b, fill(n)).replace(U, U + " const N: usize = 2;")))
    bad.append(("no backing type", mod("#[bitfield]\npub struct S { a: u8 }")))
    # --- 8. items that are not structs with named fields
    for it in ("pub enum S { A }", "pub struct S(u8);", "pub struct S;", "pub fn s() {}", "pub union S { a: u8 }", "pub trait S {}", "pub const S: u8 = 0;", "pub struct S {}", "pub type S = u8;", "impl X {}"):
        bad.append(("bitfield on: %s" % it, mod("#[bitfield(u8)]\n%s" % it)))
    for it in ("pub struct S { a: u8 }", "pub struct S;", "pub fn s() {}", "pub trait S {}", "pub enum S {}", "pub const S: u8 = 0;"):
        bad.append(("bitflag on: %s" % it, mod("#[bitflag(u8)]\n%s" % it)))
    # --- 9. arguments
    bools = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder", "bit_ops", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops", "array_heap"]
    for b in ("u8", "[u8; 1]"):
        for a in bools:
            for v in ("1", "0", "yes", '"true"', "True", "TRUE", "tru", "msb", "!true"):
                bad.append(("argument value: %s = %s (%s)" % (a, v, b), st(b, ["a: u8"], ", %s = %s" % (a, v))))
            bad.append(("argument without value: %s (%s)" % (a, b), st(b, ["a: u8"], ", %s" % a)))
            bad.append(("argument without value: %s = (%s)" % (a, b), st(b, ["a: u8"], ", %s =" % a)))
            for v in ("true", "false"):
                good.append(("argument value: %s = %s (%s)" % (a, v, b), st(b, ["a: u8"], ", %s = %s" % (a, v))))
        for a in ("from_endian", "into_endian", "write_endian"):
            for v in ("native", '"little"', "be", "le", "true", "1", "biglittle"):
                bad.append(("argument value: %s = %s (%s)" % (a, v, b), st(b, ["a: u8"], ", %s = %s" % (a, v))))
            for v in ("big", "little"):
                good.append(("argument value: %s = %s (%s)" % (a, v, b), st(b, ["a: u8"], ", %s = %s" % (a, v))))
        for v in ("msb0", '"lsb"', "big", "true", "0"):
            bad.append(("argument value: order = %s (%s)" % (v, b), st(b, ["a: u8"], ", order = %s" % v)))
        for a in ("nw", "New", "endian", "orders", "access", "ignore", "unknown", "bits", "clone", "heap", "order_", "from_bits", "eq"):
            bad.append(("unknown argument: %s (%s)" % (a, b), st(b, ["a: u8"], ", %s = true" % a)))
        for a in ("acces = ro", "readonly = true", "order = msb", "bits = 8", "new = true", "ro = true", "defaults = 1", "ro", "default", "access", "ignore"):
            bad.append(("unknown field argument: %s (%s)" % (a, b), st(b, ["#[bits(8, %s)] a: u8" % a])))
        for v in ("xx", "r", "w", "rwx", '"rw"', "none", "true", "0", "readonly"):
            bad.append(("access value: %s (%s)" % (v, b), st(b, ["#[bits(8, access = %s)] a: u8" % v])))
        for v in ("rw", "ro", "wo", "na"):
            good.append(("access value: %s (%s)" % (v, b), st(b, ["#[bits(8, access = %s)] a: u8" % v])))
            bad.append(("access on reserved: %s (%s)" % (v, b), st(b, ["#[bits(8, access = %s)] _a: u8" % v])))
            bad.append(("access on reserved: %s without bits (%s)" % (v, b), st(b, ["#[bits(access = %s)] _a: u8" % v])))
        for v in ("1", "yes", '"true"', "tru"):
            bad.append(("ignore value: %s (%s)" % (v, b), st(b, ["a: u8", "#[bits(ignore = %s)] x: u8" % v])))
        bad.append(("ignore = false counts (%s)" % b, st(b, ["a: u8", "#[bits(ignore = false)] x: u8"])))
        good.append(("ignore = true (%s)" % b, st(b, ["a: u8", "#[bits(ignore = true)] x: u8"])))
        good.append(("ignore = false (%s)" % b, st(b, ["#[bits(ignore = false)] x: u8"])))
    # --- 10. bitflags
    def fl(rep, body, args=""):
        return mod("#[bitflag(%s%s)]\npub enum F { %s }" % (rep, args, body))
    for rep in UINTS:
        w = UINTS[rep]
        bad.append(("bitflag: no base in %s" % rep, fl(rep, "A = 0, B = 1")))
        bad.append(("bitflag: two bases in %s" % rep, fl(rep, "#[base] A = 0, #[base] B = 1")))
        bad.append(("bitflag: three bases in %s" % rep, fl(rep, "#[base] A = 0, #[base] B = 1, #[base] C = 2")))
        bad.append(("bitflag: value missing in %s" % rep, fl(rep, "#[base] A = 0, B")))
        bad.append(("bitflag: base value missing in %s" % rep, fl(rep, "#[base] A, B = 1")))
        bad.append(("bitflag: negative value in %s" % rep, fl(rep, "#[base] A = 0, B = -1")))
        bad.append(("bitflag: repeated value in %s" % rep, fl(rep, "#[base] A = 1, B = 1")))
        bad.append(("bitflag: repeated value in %s, other radix" % rep, fl(rep, "#[base] A = 16, B = 0x10")))
        bad.append(("bitflag: empty enum in %s" % rep, fl(rep, "")))
        for a in ("copy = 1", "copy", "from_endian = native", "into_endian = BE", "foo = true", "order = msb", "new = false", "write_endian = big"):
            bad.append(("bitflag: argument %s in %s" % (a, rep), fl(rep, "#[base] A = 0, B = 1", ", " + a)))
        if w < 128:
            good.append(("bitflag: largest value of %s" % rep, fl(rep, "#[base] A = 0, B = %d" % ((1 << w) - 1))))
        good.append(("bitflag: default variant of %s" % rep, fl(rep, "#[default] A = 0, B = 7").replace("pub enum", "#[derive(Default)] pub enum")))
        good.append(("bitflag: base and default of %s" % rep, fl(rep, "#[default] A = 0, #[base] B = 7").replace("pub enum", "#[derive(Default)] pub enum")))
    for rep in ("i8", "i64", "usize", "isize", "f32", "bool", "char", "[u8; 2]", "", "String", "copy = true", "(u8, u8)", "&u8", "u9"):
        bad.append(("bitflag: unsupported type %s" % rep, fl(rep, "#[base] A = 0, B = 1")))
    bad.append(("bitflag: no type", mod("#[bitflag]\npub enum F { #[base] A = 0, B = 1 }")))
    # duplicates carry no information
    def uniq(cs):
        seen, out = set(), []
        for c in cs:
            if c[1] not in seen:
                seen.add(c[1])
                out.append(c)
        return out
    return uniq(bad), uniq(good)


def unusual(tier, seed):
    """valid declarations in unusual clothes"""
    g = []
    def add(what, body):
        g.append((what, mod(body)))
    for b in ("u16", "[u8; 2]"):
        add("raw identifiers: %s" % b, "#[bitfield(%s)]\npub struct S { pub r#type: u8, #[bits(4, access = ro)] pub r#fn: i8, #[bits(4)] _r: u8 }\npub fn t(s: S) -> u8 { s.r#type() }" % b)
        add("raw struct name: %s" % b, "#[bitfield(%s)]\npub struct r#Type { pub x: u16 }\npub fn t() -> u16 { r#Type::new().x() }" % b)
        add("raw ignored field: %s" % b, "#[bitfield(%s)]\npub struct S { x: u16, #[bits(ignore = true)] pub r#type: u8 }" % b)
        add("doc comments and attributes: %s" % b, "/// docs\n#[bitfield(%s)]\n/// more\n#[derive(PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[allow(dead_code)]\npub struct S { /// doc\n #[allow(unused)] #[bits(4)] pub x: u8, #[cfg_attr(all(), allow(unused))] /** block */ #[bits(12)] y: u16 }\npub fn t(a: S, b: S) -> bool { a == b }" % b)
        add("trailing commas: %s" % b, "#[bitfield(%s, new = true,)]\npub struct S { #[bits(8,)] x: u8, #[bits(8, default = 3,)] y: u8 }" % b)
        add("path types: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(8)] x: core::primitive::u8, #[bits(8)] y: ::core::primitive::i8 }" % b)
        add("underscored literals: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(1_2, default = 0b1010_1010_1010)] x: u16, #[bits(0b100, default = 0o1_7)] y: u8 }" % b)
        add("typed literals: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(default = 12u8)] x: u8, #[bits(default = -3i8)] y: i8 }" % b)
        add("default expressions: %s" % b, "pub const C: u8 = 3; pub const fn f() -> i8 { -1 }\n#[bitfield(%s)]\npub struct S { #[bits(4, default = C)] x: u8, #[bits(4, default = f())] y: i8, #[bits(4, default = 1 + 2)] z: u8, #[bits(4, default = (3))] w: u8 }" % b)
        add("char and bool defaults: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(8, default = b'a')] x: u8, #[bits(default = true)] y: bool, #[bits(7, default = !0 & 0x7f)] z: u8 }" % b)
        add("defaults through a module path: %s" % b, "pub mod k { pub const C: u8 = 3; pub struct K; impl K { pub const V: u8 = 9; pub const fn g() -> u8 { 2 } } }\n#[bitfield(%s)]\npub struct S { #[bits(4, default = k::C)] x: u8, #[bits(4, default = self::k::K::V)] y: u8, #[bits(8, default = k::K::g())] z: u8 }" % b)
        add("associated constant of the same struct: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(8)] x: u8, #[bits(8, default = S::D)] y: u8 }\nimpl S { pub const D: u8 = 4; }" % b)
        add("upper and mixed case names: %s" % b, "#[bitfield(%s)]\npub struct S { X: u8, camelCase: u8 }" % b)
        add("unicode names: %s" % b, "#[bitfield(%s)]\npub struct S { größe: u8, b: u8 }" % b)
        add("use in const context: %s" % b, "#[bitfield(%s)]\npub struct S { pub a: u8, pub b: u8 }\npub const K: S = SBuilder::new().with_a(3).build(); pub const A: u8 = K.a(); pub const L: u32 = S::A_BITS + S::B_OFFSET; pub static ST: S = S::new();" % b)
        add("use as array element and generic: %s" % b, "#[bitfield(%s)]\npub struct S { pub a: u8, pub b: u8 }\npub fn t<T: Copy + core::fmt::Debug + Default>(t: T) -> T { t } pub fn u() { let a = [S::new(); 4]; t(a[0]); }" % b)
        add("From and Into: %s" % b, "#[bitfield(%s)]\npub struct S { pub a: u8, pub b: u8 }\npub fn t(x: %s) -> %s { let s: S = x.into(); s.into() }" % (b, b, b))
        add("names used inside the generated code: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(2)] pub this: u8, #[bits(2)] pub value: u8, #[bits(2)] pub val: u8, #[bits(2)] pub offset: u8, #[bits(2)] pub mask: u8, #[bits(2)] pub len: u8, #[bits(2)] pub slice: u8, #[bits(2)] pub i: u8 }" % b)
        add("only reserved fields: %s" % b, "#[bitfield(%s)]\npub struct S { _a: u8, #[bits(8, default = 7)] _b: u8 }" % b)
        add("only read-only fields: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(8, access = ro)] a: u8, #[bits(8, access = ro, default = 4)] b: u8 }" % b)
        add("only no-access fields: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(8, access = na)] a: u8, #[bits(8, access = na, default = 4)] b: u8 }" % b)
        add("only write-only fields: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(8, access = wo)] a: u8, #[bits(8, access = wo, default = 4)] b: u8 }" % b)
        for off in ("new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder", "bit_ops"):
            add("%s off with fields without setters: %s" % (off, b), "#[bitfield(%s, %s = false)]\npub struct S { #[bits(4, access = ro, default = 3)] a: u8, #[bits(4, access = na, default = 2)] b: u8, #[bits(4, default = 1)] _c: u8, #[bits(4)] _d: u8 }" % (b, off))
            add("%s off with ignored fields: %s" % (off, b), "#[bitfield(%s, %s = false)]\npub struct S { #[bits(ignore = true)] pub x: Option<u8>, a: u8, #[bits(8, access = ro)] b: u8, #[bits(ignore = true)] pub y: [u32; 3] }" % (b, off))
        add("ignored types: %s" % b, "#[derive(Clone, Copy, Default, Debug)] pub struct Mine { x: u8 }\n#[bitfield(%s)]\npub struct S { a: u16, #[bits(ignore = true)] pub x: Option<u8>, #[bits(ignore = true)] pub y: Mine, #[bits(ignore = true)] pub z: usize, #[bits(ignore = true)] pub w: (u8, f64, char), #[bits(ignore = true)] _v: core::marker::PhantomData<u8> }" % b)
        add("ignored non-Copy types: %s" % b, "#[bitfield(%s, copy = false)]\npub struct S { a: u16, #[bits(ignore = true)] pub x: Vec<u8>, #[bits(ignore = true)] pub y: String }" % b)
        for vis in ("pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate::MID)", ""):
            add("visibility %s: %s" % (vis, b), "#[bitfield(%s)]\n%s struct S { %s a: u8, #[bits(8, access = ro)] %s b: u8, #[bits(ignore = true)] %s x: u8 }" % (b, vis, vis, vis, vis))
        add("declared inside a function: %s" % b, "pub fn f() -> u8 { #[bitfield(%s)] struct S { a: u8, b: u8 } S::new().a() }" % b)
        add("declared twice in nested modules: %s" % b, "#[bitfield(%s)]\npub struct S { a: u8, b: u8 }\npub mod inner { use super::*; #[bitfield(%s)] pub struct S { a: u8, b: u8 } }" % (b, b))
        add("fully qualified attribute: %s" % b, "#[bitfields::bitfield(%s)]\npub struct S { a: u8, b: u8 }" % b)
        add("generated by macro_rules: %s" % b, "macro_rules! mk { ($n:ident, $t:ty, $d:expr) => { #[bitfield(%s)] pub struct $n { a: u8, #[bits(8, default = 5)] b: u8 } } } mk!(S, u8, 3); mk!(T, u8, 4);" % b)
        add("signed everywhere: %s" % b, "#[bitfield(%s)]\npub struct S { #[bits(1)] a: i8, #[bits(2)] b: i16, #[bits(3)] c: i32, #[bits(4)] d: i64, #[bits(6)] e: i128 }" % b)
    # user scopes that reuse the names of prelude items the generated code needs
    shadows = [
        "pub mod core {}", "pub mod std {}", "pub mod alloc {}", "pub mod bitfields_impl {}",
        "pub trait Default {}", "pub trait Clone {}", "pub trait Copy {}", "pub trait From<T> {}", "pub trait Into<T> {}", "pub trait Debug {}", "pub trait Drop {}",
        "pub trait Iterator {}", "pub trait IntoIterator {}", "pub trait Sized {}", "pub trait TryFrom {}", "pub trait AsRef {}",
        "pub type Result<T> = ::core::result::Result<T, u8>;", "pub type Option = u8;", "pub struct Result;", "pub struct Option;", "pub struct Box;", "pub struct String;", "pub struct Vec;",
        "pub type Error = u8;", "pub fn drop() {}", "pub const A_BITS: u8 = 1; pub const BITS: u8 = 2; pub const MASK: u8 = 3;", "pub fn new() {} pub fn from_bits() {} pub fn into_bits() {}",
        "pub fn min() {} pub fn max() {} pub static MIN: u8 = 0; pub static MAX: u8 = 1;", "pub fn value() {} pub fn bits() {} pub fn this() {} pub const THIS: u8 = 0;",
        "pub mod fmt {} pub mod mem {} pub mod ops {} pub mod convert {} pub mod default {} pub mod result {} pub mod option {}",
        "pub struct Self_; pub struct Builder; pub struct Storage; pub struct Error;",
    ]
    every = " ".join(x for x in shadows if x not in ("pub struct Result;", "pub struct Option;", "pub type Error = u8;"))
    for sh in shadows + [every]:
        nm = "every prelude name" if sh is every else sh
        for b in ("u16", "[u8; 2]", "[u8; 2], array_heap = true"):
            add("user scope with `%s`: %s" % (nm, b), "%s\n#[bitflag(u8)]\npub enum F { #[base] P = 0, Q = 1 }\n#[bitfield(%s)]\npub struct S { #[bits(7, default = 1)] a: u8, #[bits(4)] b: i8, #[bits(3, access = ro)] c: F, #[bits(1)] d: bool, #[bits(1, access = wo)] e: bool }" % (sh, b))
    for b in ("u16", "[u8; 2]"):
        add("ignored type with an inherent default: %s" % b, "#[derive(Clone, Copy)] pub struct X(u8); impl X { pub fn default(_n: u8) -> X { X(9) } } impl Default for X { fn default() -> X { X(1) } }\n#[bitfield(%s)]\npub struct S { a: u8, b: u8, #[bits(ignore = true)] x: X }" % b)
    for n in (1, 2, 7, 8, 31, 64, 100, 128):
        b = {1: "u8", 2: "u8", 7: "u8", 8: "u8", 31: "u32", 64: "u64", 100: "u128", 128: "u128"}[n]
        add("%d one-bit fields in %s" % (n, b), "#[bitfield(%s)]\npub struct S { %s }" % (b, ", ".join(["f%d: bool" % i for i in range(n)] + ["#[bits(%d)] _r: %s" % (natural(b) - n, b)] * (natural(b) > n))))
        add("%d one-bit fields in an array" % n, "#[bitfield([u8; %d])]\npub struct S { %s }" % ((n + 7) // 8, ", ".join(["f%d: bool" % i for i in range(n)] + ["#[bits(%d)] _r: u8" % (-n % 8)] * (n % 8 != 0))))
    for n in (64, 255, 256, 300, 1024) if tier == "quick" else (64, 255, 256, 300, 1024, 4096, 65536):
        for h in ("", ", array_heap = true"):
            add("[u8; %d]%s" % (n, h), "#[bitfield([u8; %d]%s)]\npub struct S { a: u8, b: [u8; %d], #[bits(4)] c: u8, #[bits(4, access = ro)] d: i8 }" % (n, h, n - 2))
    add("200 fields", "#[bitfield([u8; 200])]\npub struct S { %s }" % ", ".join("#[bits(8, default = %d)] f%d: u8" % (i, i) for i in range(200)))
    for rep in UINTS:
        add("one-variant bitflag %s" % rep, "#[bitflag(%s)]\npub enum F { #[base] A = 5 }" % rep)
        add("attributes on bitflags %s" % rep, "/// doc\n#[bitflag(%s, copy = true)]\n#[derive(PartialEq, Eq, Debug, Hash)]\npub enum F { /// doc\n #[base] A = 0b0000_0001, #[allow(unused)] B = 0x0_2, C = 0o3, }" % rep)
        add("bitflag with raw names %s" % rep, "#[bitflag(%s)]\npub enum r#enum { #[base] r#fn = 0, B = 1 }" % rep)
        add("bitflag copy = false %s" % rep, "#[bitflag(%s, copy = false)]\npub enum F { #[base] A = 0, B = 1 }" % rep)
        add("bitflag in a bitfield %s" % rep, "#[bitflag(%s)]\n#[derive(Debug, PartialEq)]\npub enum F { #[base] A = 0, B = 1, C = 2 }\n#[bitfield(u16)]\npub struct S { #[bits(2, default = F::C)] f: F, #[bits(2, access = ro)] g: F, #[bits(12)] h: u16 }" % rep)
        add("bitfield in a bitfield %s" % rep, "#[bitfield(%s)]\npub struct I { a: %s }\n#[bitfield([u8; 17])]\npub struct S { #[bits(%d, default = I::new())] i: I, #[bits(%d)] r: [u8; %d] }" % (rep, rep, UINTS[rep], 136 - UINTS[rep], 17 - UINTS[rep] // 8))
    add("bitflag of constants", "pub const K: u8 = 9;\n#[bitflag(u8)]\npub enum F { #[base] A = 0, B = K }")
    add("custom type with const fns in another module", "pub mod t { #[derive(Clone, Copy, Debug)] pub struct C(pub u8); impl C { pub const fn from_bits(b: u8) -> Self { C(b) } pub const fn into_bits(self) -> u8 { self.0 } } }\n#[bitfield(u8)]\npub struct S { #[bits(3, default = t::C(2))] a: t::C, #[bits(5)] b: t::C }")
    return g


def malformed(tier, seed, lits):
    """whatever the token soup, the macro answers with a diagnostic or accepts: it never panics"""
    rng = random.Random(8888 + seed)
    out = []
    pieces = ["8", "0", "-1", "default", "=", "access", "ro", "ignore", "true", "false", ",", "1", "0xFF", "x", "(", ")", "\"s\"", "'c'", "1.5", "-", "!", "5u8", "[1, 2]", "{ 3 }", "u8::MAX", "a::b", "f()", "order", "msb", "#", "r#type", "_", "340282366920938463463374607431768211455",
              "-170141183460469231731687303715884105728", "999999999999999999999999999999999999999999", "1e3", "..", "|x| x", "&1", "1 as u8", "if true { 1 } else { 2 }", "b\"x\"", "i128::MIN"]
    def soup(n):
        s, depth = [], 0
        for _ in range(n):
            p = rng.choice(pieces)
            if p in "()":
                continue
            s.append(p)
        return " ".join(s).replace("#", "")
    for k in range(250 if tier == "quick" else 2500):
        out.append(("token soup in #[bits]: %d" % k, st("u8", ["#[bits(%s)] a: u8" % soup(rng.randint(1, 6))])))
        out.append(("default soup: %d" % k, st("u8", ["#[bits(8, default = %s)] a: %s" % (rng.choice(pieces[:1] + ["-5", "- 5", "--5", "-(5)", "(5)", "5 + 5", "{ 5 }", "u8::MAX", "\"5\"", "'5'", "b'5'", "5.0", "[5]", "[5; 1]", "true", "5u16", "5_u8", "0b11", "0o7", "0xF", "-0x5", "!5", "&5", "*C", "C", "f()", "f::<u8>()", "5 as u8", "S { x: 1 }", "if true { 1 } else { 2 }", "|x| x", "x!()", "..", "1..2", "()", "_", "0xFFu8", "0b1_1", "1_000u64", "-128", "-129", "-0", "00005", "1e1", "i8::MIN"]), rng.choice(["u8", "i8", "bool", "[u8; 1]", "crate::types::Id8", "u128"]))])))
        out.append(("argument soup: %d" % k, st("u8", ["a: u8"], ", " + soup(rng.randint(1, 5)))))
        out.append(("backing soup: %d" % k, st(soup(rng.randint(1, 3)), ["a: u8"])))
        out.append(("bitflag soup: %d" % k, mod("#[bitflag(%s)]\npub enum F { #[base] A = %s, B = %s }" % (rng.choice(["u8", "u8, copy = true", soup(2), "u8, " + soup(2)]), rng.choice(["0", "-1", "K", "f()", "1 + 1", "0xF", "1.0", "\"x\"", "340282366920938463463374607431768211456"]), rng.choice(["1", "-1", "u8::MAX", "!0", "1u8", "(1)", "{ 1 }"])))))
    tys = ["u8", "Self", "S", "impl Copy", "dyn Copy", "_", "!", "Option<u8>", "Vec<u8>", "[u8; 1 + 1]", "[u8; usize::MAX]", "[u8; {1}]", "[u8; 0x1]", "[u8; 1usize]", "<u8 as Copy>::X", "crate::types::Id8", "fn()", "(u8)", "((u8))", "&mut u8", "str", "r#u8", "core::primitive::u8", "super::X", "X!()", "[r#u8; 1]", "u8::X", "[[u8; 1]; 1]", "Box<[u8]>", "PhantomData<u8>"]
    for ty in tys:
        for pre in ("", "#[bits(8)] ", "#[bits(ignore = true)] ", "#[bits(default = 1)] "):
            out.append(("field type %s%s" % (pre, ty), st("u8", ["%sa: %s" % (pre, ty)])))
    for b in tys:
        out.append(("backing %s" % b, st(b, ["a: u8"])))
        out.append(("bitflag type %s" % b, mod("#[bitflag(%s)]\npub enum F { #[base] A = 0 }" % b)))
    return out
