"""Declaration corpus for the static analyser.

Every entry is a declaration a user could write.  For each one this module
emits the Rust text and an independent description (a "spec") of the layout,
access rights, defaults and conversions that the documentation promises for it.
Nothing here is executed: the text is type-checked by rustc and the resulting
MIR is analysed (analyzer/).
"""
import json
import random
import re
from pathlib import Path

UINTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
INTS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}

# ---------------------------------------------------------------- field types

TYPES_RS = """
// Hand-written custom field types: bijections between their bits and their value.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Id8(pub u8);
impl Id8 {
    pub const fn from_bits(b: u8) -> Self { Id8(b) }
    pub const fn into_bits(self) -> u8 { self.0 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Nib(pub u8);
impl Nib {
    pub const fn from_bits(b: u8) -> Self { Nib(b.rotate_left(3) ^ 0x5a) }
    pub const fn into_bits(self) -> u8 { (self.0 ^ 0x5a).rotate_right(3) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pair { pub lo: u8, pub hi: u8 }
impl Pair {
    pub const fn from_bits(b: u16) -> Self { Pair { lo: b as u8, hi: !((b >> 8) as u8) } }
    pub const fn into_bits(self) -> u16 { (self.lo as u16) | ((!self.hi as u16) << 8) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct W32(pub u32);
impl W32 {
    pub const fn from_bits(b: u32) -> Self { W32(b.swap_bytes()) }
    pub const fn into_bits(self) -> u32 { self.0.swap_bytes() }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct W64(pub u64);
impl W64 {
    pub const fn from_bits(b: u64) -> Self { W64(b ^ 0xdead_beef_0123_4567) }
    pub const fn into_bits(self) -> u64 { self.0 ^ 0xdead_beef_0123_4567 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct W128(pub u128);
impl W128 {
    pub const fn from_bits(b: u128) -> Self { W128(b) }
    pub const fn into_bits(self) -> u128 { self.0 }
}
"""


def _rotl(n, k):
    # leaf bit i comes from parameter bit (i-k) mod n
    return [(i - k) % n for i in range(n)]


CUSTOM = {
    "Id8": dict(k="map", lw=8),
    "Nib": dict(k="map", lw=8, perm=_rotl(8, 3), xor=str(0x5A)),
    "Pair": dict(k="map", lw=16, xor=str(0xFF00)),
    "W32": dict(k="map", lw=32, perm=[8 * (3 - i // 8) + i % 8 for i in range(32)]),
    "W64": dict(k="map", lw=64, xor=str(0xDEADBEEF01234567)),
    "W128": dict(k="map", lw=128),
}

# flags used as field types: (repr, width they are total over or None, variants, base index)
FLAGS = {
    "Fl1": ("u8", 1, [0, 1], 0),
    "Fl2": ("u8", 2, [0, 1, 2, 3], 0),
    "Fl2b": ("u8", 2, [2, 0, 3, 1], 2),
    "Fl3": ("u8", 3, [0, 1, 2, 3, 4, 5, 6, 7], 5),
    "Sp4": ("u8", None, [1, 3, 9, 14], 1),
    "Sp8": ("u8", None, [0, 7, 128, 255], 0),
    "Sp16": ("u16", None, [0x0102, 0x8000, 0, 0xFFFF, 37], 3),
}
FLAG_MINW = {"Sp4": 4, "Sp8": 8, "Sp16": 16}


def flag_rs(name, rep, vals, base, args="", marker="base", default=None, style="dec", docs=False):
    """base: index of the variant unknown patterns map to; marker: how it is marked; default: another variant marked #[default]"""
    needs = marker == "default" or default is not None or marker == "base+default"
    out = ["#[bitflag(%s%s)]" % (rep, args), "#[derive(Debug, PartialEq%s)]" % (", Default" if needs else ""), "pub enum %s {" % name]
    if docs:
        out.insert(1, "/// A documented bitflag.")
    for i, v in enumerate(vals):
        if docs:
            out.append("    /// Variant %d." % i)
        marks = marker.split("+") if i == base else []
        if default is not None and i == default:
            marks = marks + ["default"]
        if docs and i % 2:
            out.append("    #[allow(dead_code)]")
        out += ["    #[%s]" % m for m in marks]
        lit = dict(dec=str, hex=hex, bin=bin, oct=oct, HEX=lambda x: "0x%X" % x,
                   suf=lambda x: "%d%s" % (x, rep), sufu=lambda x: "%d_%s" % (x, rep), hexsuf=lambda x: "0x%x_%s" % (x, rep),
                   under=lambda x: "_".join(str(x)) if x > 9 else str(x), paren=lambda x: "(%d)" % x)[style](v)
        out.append("    V%d = %s," % (i, lit))
    out.append("}")
    return "\n".join(out)


def types_rs():
    parts = [TYPES_RS]
    for n, (rep, _, vals, base) in FLAGS.items():
        parts.append(flag_rs(n, rep, vals, base))
    parts.append(
        """
#[bitfield(u8)]
pub struct Nest8 { #[bits(3, default = 5)] a: u8, #[bits(5)] b: u8 }
#[bitfield(u16)]
pub struct Nest16 { a: u8, #[bits(default = 0xAB)] b: u8 }
#[bitfield(u32, order = msb)]
pub struct Nest32 { a: u8, #[bits(24, default = 0x123456)] b: u32 }
pub const fn six() -> u8 { 6 }
pub const ONE8: u8 = 1;
pub const TWO16: u16 = 2;
pub const K32: u32 = 0x0001_0203;
pub const K64: u64 = 3;
pub const K128: u128 = 3;
pub const NEG8: i8 = -2;
pub const LIM_F32: u8 = 3;
pub const LIM_f64: u16 = 9;
pub const TRUE: u8 = 5;
pub const TUP: (u8, i16) = (6, -77);
pub const ARR2: [u8; 2] = [0x12, 0x34];
"""
    )
    return "\n".join(parts)


NEST = {"Nest8": 8, "Nest16": 16, "Nest32": 32}
NEST_DEF = {"Nest8": 5, "Nest16": 0xAB00, "Nest32": 0x123456}


class Field:
    def __init__(self, name, ty, w=None, access=None, default=None, vis="", explicit=True):
        """default: (rust expression, field bits as int)"""
        self.name, self.ty, self.access, self.vis = name, ty, access, vis
        self.nat = natural(ty)
        self.w = self.nat if w is None else w
        self.reserved = name.startswith("_")
        self.default = default
        self.explicit = explicit or self.w != self.nat or ty in CUSTOM or ty in FLAGS or ty in NEST

    def rust(self):
        a = []
        if self.explicit:
            a.append(str(self.w))
        if self.default is not None:
            a.append("default = %s" % self.default[0])
        if self.access is not None:
            a.append("access = %s" % self.access)
        attr = "    #[bits(%s)]\n" % ", ".join(a) if a else ""
        return "%s    %s%s: %s," % (attr, self.vis, self.name, rust_ty(self.ty))

    def has_bits_attr(self):
        return self.explicit or self.default is not None or self.access is not None

    def spec(self, off):
        d = dict(
            name=self.name.removeprefix("r#"), off=off, w=self.w, ty=ty_spec(self.ty),
            access=self.access or ("na" if self.reserved and not self.has_bits_attr() else "rw"),
            reserved=self.reserved, vis=self.vis.strip(), rty=rust_ty(self.ty),
        )
        if self.default is not None:
            v = self.default[1] & ((1 << self.w) - 1)
            d["default"] = "0b" + format(v, "0%db" % self.w) if self.w > 128 else str(v)
        return d


def rust_ty(t):
    if t in CUSTOM or t in FLAGS or t in NEST:
        return "crate::types::" + t
    return t


def natural(t):
    if t == "bool":
        return 1
    if t in UINTS:
        return UINTS[t]
    if t in INTS:
        return INTS[t]
    m = re.match(r"\[u8; ?(\d+)\]", t)
    if m:
        return 8 * int(m.group(1))
    if t in CUSTOM:
        return CUSTOM[t]["lw"]
    if t in NEST:
        return NEST[t]
    if t in FLAGS:
        return UINTS[FLAGS[t][0]]
    raise KeyError(t)


def ty_spec(t):
    if t == "bool":
        return dict(k="bool")
    if t in UINTS:
        return dict(k="uint", w=UINTS[t])
    if t in INTS:
        return dict(k="int", w=INTS[t])
    if t in CUSTOM:
        return CUSTOM[t]
    if t in NEST:
        return dict(k="map", lw=NEST[t])
    if t in FLAGS:
        rep, _, vals, base = FLAGS[t]
        return dict(k="flag", w=UINTS[rep], base=base, vals=[str(v) for v in vals])
    return dict(k="bytes", n=natural(t) // 8)


class Struct:
    def __init__(self, backing, fields, ignored=(), vis="pub ", tag="", range_mode=None, attrs="", name="S", nest=False, **args):
        self.backing, self.fields, self.args, self.vis, self.tag = backing, fields, args, vis, tag
        self.ignored = list(ignored)  # (name, type, position, vis)
        self.attrs = attrs
        self.nest = nest
        self.name = name
        self.range_mode = range_mode
        self.arr = backing.startswith("[")
        self.bits = natural(backing)
        tot = sum(f.w for f in fields)
        assert tot == self.bits, (backing, tot, [(f.name, f.w) for f in fields], tag)

    def rust(self, mid):
        a = [self.backing] + ["%s = %s" % (k, v) for k, v in self.args.items()]
        out = ["pub mod %s {" % mid, "use bitfields::bitfield;", "#[bitfield(%s)]" % ", ".join(a)]
        if self.attrs:
            out.append(self.attrs)
        out.append("%sstruct %s {" % (self.vis, self.name))
        body = [f.rust() for f in self.fields]
        for nm, ty, pos, vis in self.ignored:
            body.insert(pos, "    #[bits(ignore = true)]\n    %s%s: %s," % (vis, nm, ty))
        out += body + ["}", "}"]
        if self.nest:
            out = ["pub mod %s {" % mid, out[0].replace(mid, "inner")] + out[1:] + ["}"]
        return "\n".join(out).replace("MID", mid)

    def spec(self, mid, lits):
        msb = self.args.get("order") == "msb"
        fs, pos = [], 0
        for f in self.fields:
            fs.append(f.spec(self.bits - pos - f.w if msb else pos))
            pos += f.w
        if self.nest:
            for f in fs:
                f["vis"] = f["vis"].replace("MID", mid)
        return dict(
            id=mid + "::inner" if self.nest else mid, name=self.name, arr=self.arr, heap=self.args.get("array_heap") == "true", bits=self.bits,
            from_endian=self.args.get("from_endian", "big"), into_endian=self.args.get("into_endian", "big"),
            write_endian=self.args.get("write_endian", "big"), ignored=[i[0] for i in self.ignored],
            ignored_decl=[[x.replace("MID", mid) if isinstance(x, str) else x for x in i] for i in self.ignored],
            range_mode=self.range_mode or ("all" if self.bits <= 8 else "edges"),
            lits=[x for x in lits if x <= self.bits], fields=fs, args=self.args, vis=self.vis.strip().replace("MID", mid), backing=self.backing,
            tag=self.tag,
        )


# ---------------------------------------------------------------- helpers

def lit_default(rng, ty, w, arr=True):
    """A literal default that fits the field, with its stored bits."""
    m = (1 << w) - 1
    if ty == "bool":
        v = rng.choice([0, 1])
        return ("true" if v else "false", v)
    if ty in UINTS:
        v = rng.choice([m, 1, rng.getrandbits(w), rng.getrandbits(w)])
        return (_fmt(rng, v), v)
    if ty in INTS:
        if w == 1:
            v = rng.choice([0, -1])
        else:
            v = rng.choice([-(1 << (w - 1)), (1 << (w - 1)) - 1, rng.randrange(-(1 << (w - 1)), 1 << (w - 1)), -1])
        return (str(v), v & m)
    if ty in CUSTOM:
        v = rng.getrandbits(w if rng.random() < 0.5 else CUSTOM[ty]["lw"])  # bits past the field are dropped
        return ("crate::types::%s::from_bits(%d)" % (ty, v), v)
    if ty in NEST:
        return ("crate::types::%s::new()" % ty, NEST_DEF[ty] & m)
    if ty in FLAGS:
        vals = FLAGS[ty][2]
        i = rng.randrange(len(vals))
        return ("crate::types::%s::V%d" % (ty, i), vals[i])
    n = natural(ty) // 8
    bs = [rng.getrandbits(8) for _ in range(n)]
    v = sum(b << (8 * i) for i, b in enumerate(bs)) & m
    if not arr:  # integer-backed bitfields take the packed integer
        return (hex(v), v)
    return ("[%s]" % ", ".join("0x%02x" % b for b in bs), v)


def _fmt(rng, v):
    k = rng.randrange(4)
    return [str(v), hex(v), bin(v), oct(v)][k]


ALLT = list(UINTS) + list(INTS) + ["bool"]


def rand_struct(rng, backing, tag, simple=False, heap=False, ignored=False, allow_bytes=True):
    bits = natural(backing)
    arr = backing.startswith("[")
    left, fields, i = bits, [], 0
    maxf = 9 if bits > 16 else 6
    while left > 0:
        cands = []
        r = rng.random()
        if r < 0.50:
            ty = rng.choice(list(UINTS))
        elif r < 0.72:
            ty = rng.choice(list(INTS))
        elif r < 0.80:
            ty = "bool"
        elif r < 0.88:
            ty = rng.choice(list(CUSTOM) + list(NEST))
        elif r < 0.94:
            ty = rng.choice(list(FLAGS))
        else:
            ty = "[u8; %d]" % rng.choice([1, 2, 3, 4]) if allow_bytes else "u8"
        if simple and (ty in CUSTOM or ty in FLAGS or ty in NEST or ty.startswith("[")):
            continue
        nat = natural(ty)
        last = len(fields) >= maxf
        if last:
            # fill the rest
            if left <= 128:
                ty = next(t for t in UINTS if UINTS[t] >= left)
                w = left
            else:
                n = left // 8
                if left % 8:
                    w = left % 8
                    ty = "u8"
                else:
                    ty = "[u8; %d]" % n
                    w = left
        elif ty in NEST:
            w = nat
        elif ty in FLAGS:
            w = FLAGS[ty][1] or FLAG_MINW[ty]
        elif ty.startswith("["):
            w = rng.choice([nat, nat, nat - rng.randint(0, 7)])
        else:
            top = min(nat, left)
            w = rng.choice([top, rng.randint(1, top), rng.randint(1, top), min(top, 8), 1])
        if w > left or w < 1:
            continue
        reserved = rng.random() < 0.13
        access = None
        if not reserved:
            access = rng.choice([None, None, None, None, "rw", "ro", "wo", "na"])
        if ty in FLAGS and FLAGS[ty][1] is None and (reserved or access in ("ro", "na")):
            reserved, access = False, None
        dflt = None
        if rng.random() < 0.5:
            dflt = lit_default(rng, ty, w, arr)
        nm = ("_r%d" % i) if reserved else "f%d" % i
        fields.append(Field(nm, ty, w, access, dflt, vis="pub ", explicit=rng.random() < 0.6))
        left -= w
        i += 1
    args = {}
    if rng.random() < 0.5:
        args["order"] = "msb"
    for k in ("from_endian", "into_endian", "write_endian"):
        if rng.random() < 0.3:
            args[k] = "little"
    if heap:
        args["array_heap"] = "true"
    ign = []
    if ignored:
        ign = [("ig_a", "u8", 0, "pub "), ("ig_b", "(u16, bool)", min(2, len(fields)), "pub ")]
    return Struct(backing, fields, ign, tag=tag, **args)


def covering(rng, n, v):
    """rows of n values below v in which every pair of columns takes all v*v combinations"""
    left = {(i, a, j, b) for i in range(n) for j in range(i + 1, n) for a in range(v) for b in range(v)}
    rows = []
    while left:
        best, score, todo = None, -1, sorted(left)
        for _ in range(12):
            row = [None] * n
            i, a, j, b = rng.choice(todo)
            row[i], row[j] = a, b
            order = [k for k in range(n) if k not in (i, j)]
            rng.shuffle(order)
            for k in order:
                gain = []
                for x in range(v):
                    g = sum((min(k, m), x if k < m else row[m], max(k, m), row[m] if k < m else x) in left for m in range(n) if row[m] is not None)
                    gain.append((g, rng.random(), x))
                row[k] = max(gain)[2]
            got = {(i, row[i], j, row[j]) for i in range(n) for j in range(i + 1, n)} & left
            if len(got) > score:
                best, score = (row, got), len(got)
        rows.append(tuple(best[0]))
        left -= best[1]
    return rows


# ---------------------------------------------------------------- corpus

def filler(left, start=0, **kw):
    out, i = [], start
    while left > 0:
        w = min(128, left)
        ty = next(t for t in UINTS if UINTS[t] >= w)
        out.append(Field("z%d" % i, ty, w, vis="pub ", **kw))
        left -= w
        i += 1
    return out


def corpus(tier, lits, seed=1):
    rng = random.Random(20240606 + seed)
    S = []
    P = "pub "

    # 1. one field per (type, width) at every alignment class, each backing
    for backing in ["u8", "u16", "u32", "u64", "u128", "[u8; 1]", "[u8; 3]", "[u8; 17]", "[u8; 20]"]:
        n = natural(backing)
        for order in ("lsb", "msb"):
            S.append(Struct(backing, [Field("a", "u8", 1 if n == 8 else 3, vis=P)] + filler(n - (1 if n == 8 else 3)), tag="basic", order=order))
    # 2. full-width single field
    for b in UINTS:
        S.append(Struct(b, [Field("a", b, vis=P, explicit=False)], tag="full", range_mode="all" if natural(b) <= 16 else None))
        S.append(Struct(b, [Field("a", "i" + b[1:], vis=P, explicit=False, default=("-2", -2))], tag="full signed"))
    for k in (1, 2, 4, 8, 16):
        S.append(Struct("[u8; %d]" % k, [Field("a", "u%d" % (8 * k), vis=P, explicit=False)], tag="full array"))
        S.append(Struct("[u8; %d]" % k, [Field("a", "i%d" % (8 * k), vis=P, explicit=False, default=("-3", -3))], tag="full array signed"))
    S.append(Struct("[u8; 33]", [Field("a", "[u8; 33]", vis=P, explicit=False, default=("[0x81; 33]", int.from_bytes(b"\x81" * 33, "little")))], tag="bytes only"))
    # 3. access matrix
    for backing in ["u32", "u128", "[u8; 4]", "[u8; 17]"]:
        n = natural(backing)
        for order in ("lsb", "msb"):
            fs = [
                Field("rw", "u8", 5, "rw", ("0x11", 0x11), vis=P),
                Field("ro", "u8", 6, "ro", ("0x2a", 0x2A), vis=P),
                Field("wo", "u8", 4, "wo", ("9", 9), vis=P),
                Field("na", "u8", 3, "na", ("5", 5), vis=P),
                Field("_r", "u8", 4, None, ("0xc", 0xC), vis=P),
                Field("_s", "u8", 2, vis=P),
                Field("ro2", "i8", 4, "ro", ("3", 3), vis=P),
            ]
            left = n - sum(f.w for f in fs)
            fs += filler(left)
            S.append(Struct(backing, fs, tag="access", order=order))
            fs = [
                Field("ro", "u8", 6, "ro", vis=P), Field("x", "u8", 7, vis=P),
                Field("na", "u8", 3, "na", vis=P), Field("__", "u8", 4, vis=P), Field("wo", "bool", 1, "wo", vis=P),
                Field("__", "u8", 2, None, ("2", 2), vis=P),
            ]
            fs += filler(n - sum(f.w for f in fs))
            S.append(Struct(backing, fs, tag="access2", order=order, from_endian="little", into_endian="little", write_endian="little"))
    # 4. signed widths
    for backing in ["u64", "[u8; 8]", "u128", "[u8; 19]"]:
        n = natural(backing)
        fs = [
            Field("a", "i8", 3, vis=P, default=("-4", -4)), Field("b", "i16", 9, vis=P, default=("255", 255)),
            Field("c", "i8", 8, vis=P), Field("d", "i32", 17, vis=P), Field("e", "i64", 5, vis=P), Field("g", "i128", 7, vis=P),
            Field("h", "i8", 1, vis=P),
        ]
        fs += filler(n - sum(f.w for f in fs))
        for order in ("lsb", "msb"):
            S.append(Struct(backing, fs, tag="signed", order=order))
    S.append(Struct("u128", [Field("a", "i128", 127, vis=P), Field("b", "bool", vis=P)], tag="signed wide"))
    S.append(Struct("[u8; 17]", [Field("a", "i128", 128, vis=P), Field("b", "i64", 8, vis=P)], tag="signed wide"))
    S.append(Struct("[u8; 17]", [Field("q", "u8", 3, vis=P), Field("a", "i128", 127, vis=P), Field("b", "i64", 6, vis=P)], tag="signed wide"))
    S.append(Struct("u128", [Field("q", "u8", 5, vis=P), Field("a", "i64", 64, vis=P), Field("b", "i64", 59, vis=P)], tag="signed wide"))
    # 5. wide fields straddling bytes in arrays
    for k, (pre, w, ty) in enumerate([(1, 128, "u128"), (7, 128, "u128"), (3, 64, "u64"), (5, 121, "u128"), (4, 60, "u64"), (0, 100, "u128"), (6, 33, "u64"), (2, 31, "u32")]):
        fs = ([Field("p", "u8", pre, vis=P)] if pre else []) + [Field("a", ty, w, vis=P, default=(hex((1 << w) - 3), (1 << w) - 3))]
        tot = pre + w
        nb = (tot + 8 + 7) // 8
        fs += filler(nb * 8 - tot)
        for order in ("lsb", "msb"):
            S.append(Struct("[u8; %d]" % nb, fs, tag="straddle", order=order))
    # 6. byte arrays as fields
    for backing in ["u32", "u64", "u128", "[u8; 6]", "[u8; 18]", "[u8; 24]"]:
        n = natural(backing)
        for order in ("lsb", "msb"):
            for pre in (0, 3):
                fs = ([Field("p", "u8", pre, vis=P)] if pre else []) + [
                    Field("a", "[u8; 2]", 16, vis=P, default=("[0x12, 0xf4]" if backing[0] == "[" else "0xf412", 0xF412)),
                    Field("b", "[u8; 1]", 8, vis=P, explicit=False),
                ]
                if n > 32:
                    fs += [Field("c", "[u8; 2]", 13, vis=P), Field("d", "[u8; 1]", 5, "ro", ("[0x13]" if backing[0] == "[" else "0x13", 0x13), vis=P)]
                fs += filler(n - sum(f.w for f in fs))
                S.append(Struct(backing, fs, tag="bytes", order=order))
    S.append(Struct("[u8; 24]", [Field("p", "u8", 3, vis=P), Field("a", "[u8; 20]", 160, vis=P), Field("q", "u32", 29, vis=P)], tag="bytes wide"))
    S.append(Struct("[u8; 24]", [Field("p", "u8", 8, vis=P), Field("a", "[u8; 20]", 160, "ro", vis=P), Field("q", "u32", 24, vis=P)], tag="bytes wide", order="msb"))
    # 6b. arrays longer than their field (and than any integer)
    for backing in ["u8", "u32", "u64", "u128", "[u8; 4]", "[u8; 7]"]:
        n = natural(backing)
        for order in ("lsb", "msb"):
            fs = []
            for k, (ln, w, acc) in enumerate([(17, 3, None), (20, 16, None), (33, 9, "ro"), (19, 5, "wo"), (300, 12, "na"), (16, 1, None), (40, 7, "ro")]):
                if sum(f.w for f in fs) + w > n:
                    break
                v = 0x5A5A & ((1 << w) - 1)
                lit = hex(v) if backing[0] != "[" else "{ let mut a = [0u8; %d]; a[0] = %d; a[1] = %d; a }" % (ln, v & 255, v >> 8)
                fs.append(Field("a%d" % k, "[u8; %d]" % ln, w, acc, (lit, v) if k % 2 else None, vis=P))
            fs += filler(n - sum(f.w for f in fs))
            S.append(Struct(backing, fs, tag="long bytes", order=order))
    # 7. custom types
    for backing in ["u32", "u64", "[u8; 4]", "[u8; 9]", "u128", "[u8; 20]"]:
        n = natural(backing)
        for order in ("lsb", "msb"):
            fs = [
                Field("p", "u8", 3, vis=P), Field("a", "Nib", 8, vis=P, default=("crate::types::Nib::from_bits(0x3c)", 0x3C)),
                Field("b", "Nib", 5, vis=P), Field("c", "Fl2b", 2, vis=P, default=("crate::types::Fl2b::V0", 2)),
                Field("d", "Fl1", 1, "ro", vis=P), Field("e", "Sp4", 4, vis=P),
            ]
            if n >= 64:
                fs += [Field("g", "Pair", 16, vis=P), Field("h", "Nest8", 8, vis=P, default=("crate::types::Nest8::new()", 5))]
            if n >= 128:
                fs += [Field("i", "W64", 41, vis=P)]
            fs += filler(n - sum(f.w for f in fs))
            S.append(Struct(backing, fs, tag="custom", order=order))
    # custom defaults with more bits than their field
    for backing in ["u32", "u64", "[u8; 4]", "[u8; 11]"]:
        n = natural(backing)
        for order in ("lsb", "msb"):
            fs = [Field("_e", "W64", 5, None, ("crate::types::W64::from_bits(0xffff_0000_1234_56ef)", 0x0F), vis=P)]
            for k, acc in enumerate((None, "ro", "wo", "na")):
                fs.append(Field("a%d" % k, ("Id8", "Nib", "Pair", "W32")[(k + n) % 4], 3 + k, acc, ("crate::types::%s::from_bits(0xF%d)" % (("Id8", "Nib", "Pair", "W32")[(k + n) % 4], k + 3), 0xF0 | (k + 3)), vis=P))
            fs += filler(n - sum(f.w for f in fs))
            S.append(Struct(backing, fs, tag="custom default excess", order=order))
    S.append(Struct("[u8; 26]", [Field("p", "u8", 5, vis=P), Field("a", "W128", 128, vis=P), Field("b", "W64", 64, vis=P), Field("q", "u16", 11, vis=P)], tag="custom wide"))
    S.append(Struct("u128", [Field("a", "W64", 64, "ro", vis=P, default=("crate::types::W64::from_bits(77)", 77)), Field("b", "Sp16", 16, vis=P), Field("c", "Nest32", 32, vis=P), Field("d", "Pair", 16, "wo", vis=P)], tag="custom wide"))
    S.append(Struct("u32", [Field("a", "Nest16", 16, "ro", ("crate::types::Nest16::new()", 0xAB00), vis=P), Field("_r", "Nest8", 8, None, ("crate::types::Nest8::new()", 5), vis=P), Field("b", "Id8", 8, "na", ("crate::types::Id8::from_bits(0x77)", 0x77), vis=P)], tag="custom protected"))
    S.append(Struct("[u8; 4]", [Field("a", "Nest16", 16, "ro", ("crate::types::Nest16::new()", 0xAB00), vis=P), Field("_r", "Nest8", 8, None, ("crate::types::Nest8::new()", 5), vis=P), Field("b", "Id8", 8, "na", ("crate::types::Id8::from_bits(0x77)", 0x77), vis=P)], tag="custom protected"))
    for backing in ["u8", "u16", "[u8; 2]"]:
        n = natural(backing)
        S.append(Struct(backing, [Field("a", "W32", n - 3, vis=P), Field("b", "Pair", 3, vis=P)], tag="custom wider than backing"))
        S.append(Struct(backing, [Field("a", "u64", n - 3, vis=P), Field("b", "i128", 3, vis=P)], tag="int wider than backing"))
        S.append(Struct(backing, [Field("a", "u128", n - 3, vis=P), Field("b", "W64", 2, vis=P), Field("c", "u16", 1, vis=P)], tag="wider than backing", order="msb"))
    # 8. defaults by constant and const fn
    for backing in ["u64", "[u8; 8]", "[u8; 20]", "u128"]:
        n = natural(backing)
        fs = [
            Field("a", "u8", 4, vis=P, default=("crate::types::ONE8", 1)), Field("b", "u16", 9, vis=P, default=("crate::types::TWO16", 2)),
            Field("c", "u8", 5, vis=P, default=("crate::types::six()", 6)), Field("d", "u32", 20, vis=P, default=("crate::types::K32", 0x10203)),
            Field("e", "bool", 1, vis=P, default=("true", 1)), Field("g", "i8", 6, vis=P, default=("crate::types::NEG8", -2)),
            Field("_h", "u8", 3, vis=P, default=("7", 7)),
        ]
        fs += filler(n - sum(f.w for f in fs))
        S.append(Struct(backing, fs, tag="const defaults"))
        S.append(Struct(backing, fs, tag="const defaults", order="msb", from_endian="little"))
    # 8b. spellings of literal defaults, and constants whose names resemble literals
    SP = [("u8", 7, "0b1_01", 5), ("u8", 8, "0xF4", 0xF4), ("u8", 8, "0xfe_u8", 0xFE), ("u8", 6, "0o17", 15), ("u8", 4, "1_0", 10), ("u8", 5, "0b1u8", 1),
          ("i8", 5, "-0x1", -1), ("i8", 8, "-0x7f_i8", -127), ("i8", 4, "-0b111", -7), ("i8", 8, "-0o12", -10), ("i8", 8, "-128i8", -128), ("i8", 8, "-128", -128),
          ("u16", 12, "0xF32", 0xF32), ("u16", 16, "0xBF64", 0xBF64), ("i16", 13, "-0xF32", -0xF32), ("i16", 16, "-0xf64", -0xF64), ("i16", 16, "0x0B10", 0xB10), ("u16", 16, "65_535u16", 65535),
          ("u32", 32, "0xB0F3_2F64", 0xB0F32F64), ("u32", 31, "0o17777777777", 0o17777777777), ("i32", 32, "-2_147_483_648", -2 ** 31), ("i32", 30, "-0x1000_0000i32", -0x10000000),
          ("u64", 64, "0xFFFF_FFFF_FFFF_FFFFu64", 2 ** 64 - 1), ("i64", 64, "-0x7FFF_FFFF_FFFF_FFFF", -(2 ** 63 - 1)), ("i64", 50, "-0b1_0000_0000_0000_0000_0000_0000_0000_0000", -2 ** 32),
          ("u128", 128, "0xF000_0000_0000_0000_0000_0000_0000_0F64", 0xF0000000000000000000000000000F64), ("i128", 128, "-0x7FFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FF32", -0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFF32), ("i128", 100, "-1i128", -1),
          ("u8", 5, "crate::types::LIM_F32", 3), ("u16", 11, "crate::types::LIM_f64", 9), ("u8", 5, "crate::types::TRUE", 5), ("u8", 8, "crate::types::TUP.0", 6), ("i16", 9, "crate::types::TUP.1", -77), ("bool", 1, "false", 0), ("u8", 4, "3 + 4", 7)]
    for order in ("lsb", "msb"):
        for backing in ("u128", "[u8; 16]", "[u8; 33]"):
            n = natural(backing)
            cur, used, todo = [], 0, list(SP)
            while todo:
                ty, w, text, v = todo[0]
                if used + w <= n and len(cur) < 12:
                    cur.append(Field("f%d" % len(cur), ty, w, [None, "ro", None, "na"][len(cur) % 4], (text, v), vis=P))
                    used += w
                    todo.pop(0)
                    if todo:
                        continue
                S.append(Struct(backing, cur + (filler(n - used) if used < n else []), tag="default spellings", order=order))
                cur, used = [], 0
    # 9. endian matrix
    for backing in ["u16", "u64", "[u8; 2]", "[u8; 5]", "[u8; 17]"]:
        n = natural(backing)
        for fe in ("big", "little"):
            for ie in ("big", "little"):
                for we in ("big", "little"):
                    if tier == "quick" and (fe, ie, we) not in (("big", "little", "big"), ("little", "big", "big"), ("big", "big", "little"), ("little", "little", "little")):
                        continue
                    fs = [Field("a", "u8", 3, "ro", ("5", 5), vis=P), Field("b", "u8", 8, vis=P, default=("0x81", 0x81)), Field("_c", "u8", 2, vis=P, default=("2", 2))] + filler(n - 13)
                    S.append(Struct(backing, fs, tag="endian", from_endian=fe, into_endian=ie, write_endian=we))
    # 10. heap arrays
    for k in (1, 4, 17, 24):
        n = 8 * k
        for order in ("lsb", "msb"):
            fs = [Field("a", "u8", 3, vis=P, default=("6", 6)), Field("b", "i8", 4, "ro" if k > 1 else None, ("-2", -2) if k == 1 else ("3", 3), vis=P), Field("c", "bool", 1, vis=P)]
            if k > 1:
                fs += [Field("_d", "u8", 5, None, ("0x15", 0x15), vis=P), Field("e", "Nib", 6, "wo", vis=P), Field("g", "Fl2", 2, vis=P), Field("h", "[u8; 1]", 8, vis=P)]
                fs += filler(n - sum(f.w for f in fs))
            S.append(Struct("[u8; %d]" % k, fs, tag="heap", order=order, array_heap="true", from_endian="little" if order == "msb" else "big"))
    S.append(Struct("u16", [Field("a", "u8", vis=P), Field("b", "u8", 8, "ro", vis=P)], tag="heap on int", array_heap="false"))
    # 11. ignored fields
    for backing in ["u16", "u64", "[u8; 3]", "[u8; 18]"]:
        n = natural(backing)
        for heap in ((False, True) if backing.startswith("[") else (False,)):
            fs = [Field("a", "u8", 5, vis=P, default=("0x1e", 0x1E)), Field("b", "i8", 4, "ro", vis=P), Field("_c", "u8", 3, vis=P, default=("5", 5))] + filler(n - 12)
            kw = dict(array_heap="true", copy="true") if heap else {}
            S.append(Struct(backing, fs, [("id", "u8", 0, P), ("other", "(u16, bool)", 3, "pub(crate) ")], tag="ignored", **kw))
    # 11b. behaviour of what is left when other groups are switched off
    for backing in ["u32", "[u8; 4]"]:
        for off in (["new"], ["from_into_bits"], ["builder"], ["default", "new"], ["new", "from_into_bits", "debug"], ["from_traits", "builder", "copy"],
                    ["write_bit_ops", "set_get_bit_ops"], ["clear_bit_ops", "new", "default"], ["copy"]):
            fs = [Field("a", "u8", 5, vis=P, default=("0x1e", 0x1E)), Field("b", "i8", 4, "ro", ("-3", -3), vis=P), Field("_c", "u8", 3, vis=P, default=("5", 5)),
                  Field("d", "Nib", 8, vis=P), Field("w", "u16", 7, "wo", vis=P), Field("e", "bool", vis=P, default=("true", 1)), Field("g", "Fl2", 2, vis=P), Field("h", "u8", 2, "na", vis=P)]
            S.append(Struct(backing, fs, tag="groups off", **{k: "false" for k in off}))
        for only in ("write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"):
            fs = [Field("a", "u8", 5, vis=P, default=("0x1e", 0x1E)), Field("b", "i8", 4, "ro", ("-3", -3), vis=P), Field("c", "u32", 23, vis=P)]
            S.append(Struct(backing, fs, tag="groups off", bit_ops="false", **{only: "true"}))
    # 11c. every combination of two choices among the arguments, ignored fields and storage
    S += arguments_matrix()
    # 12. random mixtures
    nr = 60 if tier == "quick" else 420
    back = ["u8", "u16", "u32", "u64", "u128", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 5]", "[u8; 9]", "[u8; 16]", "[u8; 18]", "[u8; 25]"]
    for i in range(nr):
        b = back[i % len(back)]
        S.append(rand_struct(rng, b, "random", heap=b.startswith("[") and i % 7 == 3, ignored=i % 11 == 5))
    # 13. integer constants that appear in the generator's own source
    for L in lits:
        if 2 <= L <= 128:
            ty = next(t for t in UINTS if UINTS[t] >= L)
            sy = "i" + ty[1:]
            if L < 128:
                b = next((t for t in UINTS if UINTS[t] > L), "u128")
                n = UINTS[b]
                S.append(Struct(b, [Field("a", ty, L, vis=P)] + filler(n - L), tag="lit"))
                S.append(Struct(b, [Field("a", sy, L, vis=P)] + filler(n - L), tag="lit", order="msb"))
            nb = (L + 7) // 8 + 2
            S.append(Struct("[u8; %d]" % nb, [Field("p", "u8", 1, vis=P), Field("a", ty, L, vis=P)] + filler(nb * 8 - L - 1), tag="lit"))
            if L <= 40:
                S.append(Struct("[u8; %d]" % L, [Field("p", "u8", 3, vis=P)] + filler(L * 8 - 3), tag="lit array"))
                S.append(Struct("[u8; %d]" % (L + 1), [Field("p", "[u8; %d]" % L, vis=P), Field("q", "u8", vis=P)], tag="lit bytes"))
    return S


def arguments_matrix():
    rng = random.Random(4242)
    P = "pub "
    groups = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder", "bit_ops", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops"]
    S = []
    for k, row in enumerate(covering(rng, len(groups) + 6, 3)):
        args = {g: (None, "true", "false")[c] for g, c in zip(groups, row) if c}
        order, fe, ie, we, heap, ig = row[len(groups):]
        for nm, c in (("order", order), ("from_endian", fe), ("into_endian", ie), ("write_endian", we)):
            if c:
                args[nm] = (None, "lsb" if nm == "order" else "big", "msb" if nm == "order" else "little")[c]
        for backing in ("u32", "[u8; 4]", ("u64", "[u8; 5]")[k % 2]):
            n = natural(backing)
            a = dict(args)
            if backing[0] == "[" and heap:
                a["array_heap"] = ("", "true", "false")[heap]
            fs = [Field("a", "u8", 5, vis=P, default=("0x1e", 0x1E)), Field("b", "i8", 4, "ro", ("-3", -3), vis=P), Field("_c", "u8", 3, vis=P, default=("5", 5)),
                  Field("d", "Nib", 6, vis=P), Field("w", "u16", 5, "wo", vis=P), Field("e", "bool", vis=P, default=("true", 1)), Field("g", "Fl2", 2, vis=P), Field("h", "u8", 2, "na", vis=P), Field("s", "i16", 4, vis=P)]
            rng.shuffle(fs)
            fs += filler(n - 32)
            igs = [[], [("ig", "u8", k % 3, P)], [("ig", "(u8, bool)", 0, P), ("ih", "u64", 4, "")]][ig]
            S.append(Struct(backing, fs, igs, tag="arguments matrix", **a))
    return S


def source_literals(repo):
    out = set()
    for p in sorted(Path(repo, "bitfields_impl/src").rglob("*.rs")):
        if p.name == "lib.rs":
            continue
        for line in p.read_text().splitlines():
            if line.lstrip().startswith("//"):
                continue
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?![\w.])", line):
                try:
                    v = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                for k in (v, v - 1, v + 1):
                    if 0 <= k <= 4096:
                        out.add(k)
    return sorted(out)


def config_corpus(tier, seed=1):
    """API-only declarations: configuration arguments (P20) and visibilities (P21)."""
    rng = random.Random(77 + seed)
    P = "pub "
    S = []
    flags = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder", "bit_ops",
             "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops"]
    ops = flags[8:]

    def fields(n, vis=P):
        fs = [Field("a", "u8", 3, vis=vis, default=("5", 5)), Field("b", "u8", 2, "ro", vis=vis), Field("c", "bool", 1, "wo", vis=vis),
              Field("d", "i8", 2, "na", vis=vis, default=("1", 1)), Field("_e", "u8", 3, vis=vis), Field("__", "u8", 1, vis=vis), Field("__", "u8", 1, None, ("1", 1), vis=vis)]
        return fs + filler(n - sum(f.w for f in fs))

    def add(backing, args, tag, **kw):
        S.append(Struct(backing, fields(natural(backing)), tag=tag, **kw, **args))

    for backing in ("u16", "u64", "[u8; 2]", "[u8; 17]"):
        add(backing, {}, "stock")
        heaps = ({}, {"array_heap": "true"}, {"array_heap": "false"}) if backing[0] == "[" else ({}, {"array_heap": "true"})
        for h in heaps:
            add(backing, h, "heap arg")
            for f in flags:
                for v in ("false", "true"):
                    add(backing, {**h, f: v}, "one argument")
        # the bit_ops master switch against every subset of the groups, set either way
        for m in ("false", "true"):
            for mask in range(3 ** 4):
                a, k = {"bit_ops": m}, mask
                for o in ("write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"):
                    if k % 3:
                        a[o] = "true" if k % 3 == 1 else "false"
                    k //= 3
                if backing in ("u16", "[u8; 2]") or mask % 5 == 2:
                    add(backing, a, "bit_ops matrix")
        # everything off; pairs; random mixtures
        add(backing, {f: "false" for f in flags}, "all off")
        for i, f in enumerate(flags):
            for g in flags[i + 1:]:
                if backing in ("u16", "[u8; 2]"):
                    add(backing, {f: "false", g: "false"}, "two off")
        for _ in range(40 if tier == "quick" else 400):
            a = {f: rng.choice(["true", "false"]) for f in flags if rng.random() < 0.5}
            for k, vs in (("order", ("lsb", "msb")), ("from_endian", ("big", "little")), ("into_endian", ("big", "little")), ("write_endian", ("big", "little"))):
                if rng.random() < 0.3:
                    a[k] = rng.choice(vs)
            items = list(a.items())
            rng.shuffle(items)
            add(backing, dict(items), "random arguments")
    # ignored fields change constness and the struct shape
    for backing in ("u16", "[u8; 3]"):
        for ig in ([("x", "u8", 0, P)], [("x", "usize", 1, "pub(crate) "), ("y", "[u16; 3]", 2, P)], [("x", "(u8, f32)", 0, "pub(super) ")], [("_x", "bool", 0, P)]):
            for a in ({}, {"new": "false"}, {"builder": "false", "copy": "false"}):
                S.append(Struct(backing, fields(natural(backing)), ig, tag="ignored", **a))
    # visibilities
    vs = ["pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate::MID) ", ""]
    for backing in ("u16", "[u8; 3]"):
        for sv in vs:
            for fv in vs:
                a = {"array_heap": "true"} if backing[0] == "[" and fv == "pub " else {}
                n = natural(backing)
                S.append(Struct(backing, [Field("a", "u8", 3, vis=fv, default=("5", 5)), Field("b", "i8", 2, "ro", vis=fv), Field("c", "bool", 1, vis=fv)]
                                + [Field("z", "u32", n - 6, vis=vs[(vs.index(fv) + 1) % 6])], [("ig", "u8", 1, fv)] if fv != "pub(in crate::MID) " else (), vis=sv, tag="visibility", nest=True, **a))
    # naming: fields whose names share prefixes, digits, single letters, upper case
    for backing in ("u32", "[u8; 4]"):
        fs = [Field(nm, "u8", 4, acc, vis=P) for nm, acc in (("x", None), ("x1", "ro"), ("xx_y", None), ("value", "wo"), ("bits_", None), ("flag_a_b", "ro"), ("mask", None), ("this", None))]
        S.append(Struct(backing, fs, tag="names"))
        fs = [Field(nm, "u8", 4, acc, vis=P) for nm, acc in (("été", None), ("r#type", "ro"), ("naïf_2", None), ("r#fn", "wo"), ("поле", None), ("r#match", None), ("ñ", "ro"), ("aÉb", "wo"))]
        S.append(Struct(backing, fs, tag="names", attrs="#[allow(non_snake_case, uncommon_codepoints)]"))
        fs = [Field(nm, "u8", 4, acc, vis=P) for nm, acc in (("i", None), ("bytes_", "ro"), ("offset", None), ("length", "wo"), ("val", None), ("shift", "ro"), ("protected_mask", None), ("custom_bits", None))]
        S.append(Struct(backing, fs, tag="names"))
    return S


BIG = ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P10", "P11", "P12", "P13", "P14", "P15", "P24")


def flag_cases(tier, lits):
    out = []
    for rep in UINTS:
        w = UINTS[rep]
        for fe in ("big", "little"):
            for ie in ("big", "little"):
                vals = [0, 1, 2, (1 << w) - 1, 1 << (w - 1), (1 << w) - 2, (0x0102 & ((1 << w) - 1)) or 5]
                vals = list(dict.fromkeys(vals))
                out.append((rep, vals, (len(out)) % len(vals), dict(from_endian=fe, into_endian=ie)))
    # literals that look like other radixes, single variant, base last, implicit discriminants are exercised separately
    out.append(("u8", [3], 0, {}))
    out.append(("u8", list(range(0, 200, 9)), 4, {}))
    out.append(("u16", [0xFF, 0xFF00, 0x00FE], 2, dict(copy="false")))
    out.append(("u8", list(range(256)), 7, {}))
    for L in lits:
        if 3 <= L <= 255:
            out.append(("u16", [0, L, L << 4], 0, {}))
    # who takes the patterns no variant has: base, default, both in either order, both on one variant
    for rep, vals in (("u8", [4, 1, 2, 200]), ("u16", [0x0102, 0x0201, 7]), ("u64", [1 << 40, 3, (1 << 64) - 1])):
        for b in range(len(vals)):
            out.append((rep, vals, b, dict(MARK="default")))
            out.append((rep, vals, b, dict(MARK="base+default")))
            for d in range(len(vals)):
                if d != b:
                    out.append((rep, vals, b, dict(DEFAULT=d)))
        out.append((rep, vals, 1, dict(DEFAULT=0, from_endian="little")))
        out.append((rep, vals, 0, dict(DEFAULT=2, into_endian="little", copy="false")))
    # every mix of representation, markers, endiannesses and copy
    styles = ("dec", "hex", "HEX", "bin", "oct", "suf", "sufu", "hexsuf", "under", "paren")
    for rep in UINTS:
        top = (1 << UINTS[rep]) - 1
        for mk in ("base", "default", "base+default", "base,other"):
            for fe in ("big", "little"):
                for ie in ("big", "little"):
                    for cp in (None, "true", "false"):
                        k = len(out)
                        vals = [v for v in dict.fromkeys([k % 5, 0x0102 & top, top, 1 << (UINTS[rep] - 1), 0xF00D0001 & top, 77])][:2 + k % 5]
                        a = dict(from_endian=fe, into_endian=ie, MARK=mk if mk != "base,other" else "base", LIT=styles[k % len(styles)], DOCS=k % 4 == 1)
                        if cp:
                            a["copy"] = cp
                        if k % 3 == 0 and fe == "big":
                            del a["from_endian"]
                        if k % 5 == 0 and ie == "big":
                            del a["into_endian"]
                        b = k % len(vals)
                        if mk == "base,other":
                            a["DEFAULT"] = (b + 1) % len(vals)
                        out.append((rep, vals, b, a))
    # how the values are written
    for rep, vals in (("u8", [0, 10, 77, 255]), ("u16", [8, 0x0F32, 0xFFFF]), ("u32", [0xF0F3_2F64, 11, 0x80]), ("u64", [0x1F64, 12, 1 << 63]), ("u128", [(1 << 127) + 5, 0xB0F32, 100])):
        for k, style in enumerate(("hex", "HEX", "bin", "oct", "suf", "sufu", "hexsuf", "under", "paren")):
            out.append((rep, vals, k % len(vals), dict(LIT=style, from_endian="little" if k % 2 else "big", DOCS=k % 3 == 0)))
    return out


def flag_config_cases():
    out = []
    for rep in ("u8", "u32"):
        for cp in (None, "true", "false"):
            for vis in ("pub ", "pub(crate) ", "pub(super) ", "", "pub(in crate::MID) "):
                args = {"copy": cp} if cp else {}
                out.append((rep, [0, 3, 9], 1, {**args, "VIS": vis}))
    return out


def big_structs(prop, tier):
    """declarations whose offsets need more than 8, 12 and 16 bits"""
    P = "pub "
    out = []
    sizes = {"P01": (40, 300, 1100, 9000), "P02": (40, 300, 1100, 9000), "P14": (300, 1100), "P24": (300, 1100), "P11": (40, 300), "P13": (40, 300), "P12": (40, 300, 1100)}.get(prop, (40, 300))
    for n in sizes:
        for order in ("lsb", "msb"):
            for heap in ((False, True) if n == 300 else (False,)):
                bulk = (n - 5) // 2
                fs = [Field("a", "u8", 3, vis=P, default=("5", 5)), Field("b", "i16", 9, vis=P), Field("bulk0", "[u8; %d]" % bulk, vis=P),
                      Field("c", "u32", 20, "ro", vis=P), Field("bulk1", "[u8; %d]" % (n - 5 - bulk), vis=P), Field("_d", "u8", 4, None, ("9", 9), vis=P), Field("e", "bool", vis=P),
                      Field("g", "u8", 3, "wo", vis=P)]
                if n > 1000:
                    fs[2].access = fs[4].access = "na"
                out.append(Struct("[u8; %d]" % n, fs, tag="big array", order=order, **({"array_heap": "true"} if heap else {})))
    return out


SWEEP = ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P09", "P10", "P14", "P15", "P16", "P18", "P24")


def sweep_kinds():
    out = [(t, w) for t in list(UINTS) + list(INTS) + list(CUSTOM) for w in range(1, natural(t) + 1)]
    out += [("[u8; %d]" % n, w) for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20) for w in range(1, 8 * n + 1)]
    return out


def protected_sweep(tier):
    """protected fields of every kind, narrow and wide, at low, middle and high offsets, with the bit and range operations on"""
    P = "pub "
    S = []
    k = 0
    for backing in ("u128", "[u8; 16]", "[u8; 21]", "u64", "[u8; 8]"):
        n = natural(backing)
        ws = [w for w in (1, 7, 8, 9, 31, 33, 63, 64, 65, 72, 90, 120, 127, 128) if w <= n]
        for w in ws if tier != "quick" else [w for w in ws if w in (1, 64) or w > 64 or w % 2]:
            for off in sorted({0, (n - w) // 2, n - w} if tier != "quick" else {((n - w) * (k % 3)) // 2}):
                for acc in ("ro", "wo", "na", "res") if tier != "quick" else (("ro", "na", "wo", "ro", "res")[k % 5], "ro") if w > 64 else (("ro", "na", "wo", "res")[k % 4],):
                    ty = next(t for t in UINTS if UINTS[t] >= w)
                    if k % 4 == 1:
                        ty = "i" + ty[1:]
                    d = (("1" if k % 2 else "0x0"), k % 2) if w > 1 and k % 3 else None
                    fs = (filler(off) if off else []) + [Field("_p" if acc == "res" else "p", ty, w, None if acc == "res" else acc, d, vis=P)]
                    if n - off - w:
                        fs += filler(n - off - w, 5)
                    S.append(Struct(backing, fs, tag="protected sweep", **({"order": "msb"} if k % 2 else {})))
                    k += 1
    return S


def width_sweep(prop, tier):
    """every width of every field type, packed at scattered offsets into integers and arrays"""
    rng = random.Random(77)
    S = []

    def emit(backing, cur, used, access):
        n, fs = natural(backing), []
        arr = backing[0] == "["
        for k, (ty, w) in enumerate(cur):
            acc, nm = None, "f%d" % k
            if access:
                acc = ("ro", "wo", "na", None, "rw", "res")[(len(S) + k) % 6]
                if acc == "res":
                    acc, nm = None, "_f%d" % k
            d = lit_default(rng, ty, w, arr) if (k + len(S)) % 2 == 0 or acc == "ro" else None
            fs.append(Field(nm, ty, w, acc, d, vis="pub "))
        if used < n:
            fs += filler(n - used)
        kw = dict(order="msb") if len(S) % 2 else {}
        for j, e in enumerate(("from_endian", "into_endian", "write_endian")):
            if (len(S) >> (j + 1)) & 1:
                kw[e] = "little"
        if arr and len(S) % 11 == 5:
            kw["array_heap"] = "true"
        S.append(Struct(backing, fs, tag="width sweep", set_get_bit_ops="false", **kw))

    def pack(kinds, backing, access):
        n = natural(backing)
        kinds = [k for k in kinds if k[1] <= n]
        rng.shuffle(kinds)
        bins = []
        for k in sorted(kinds, key=lambda k: -k[1]):
            for b in bins:
                if b[0] + k[1] <= n and len(b[1]) < 10:
                    b[0] += k[1]
                    b[1].append(k)
                    break
            else:
                bins.append([k[1], [k]])
        for used, cur in bins:
            rng.shuffle(cur)
            emit(backing, cur, used, access)

    allk = sweep_kinds()
    if tier == "quick":
        edge = (1, 2, 63, 64, 65, 120, 121, 127, 128)
        some = [k for i, k in enumerate(allk) if i % 5 == 2 or k[1] in edge or k[1] in (8, 9, 16, 17, 32, 33)]
        pack([k for i, k in enumerate(allk) if k[1] <= 40 or (k[1] + i) % 5 == 0 or k[1] in edge or k[1] % 8 < 2], "u128", False)
        pack(allk, "[u8; 37]", False)
        few = [k for i, k in enumerate(some) if i % 3 == 0]
        pack(few, "u128", True)
        pack(few, "[u8; 37]", True)
    else:
        some = allk
        for access in (False, True):
            pack(allk, "u128", access)
            pack(allk, "[u8; 37]", access)
    for j, backing in enumerate(("u8", "u16", "u32", "u64", "[u8; 1]", "[u8; 2]", "[u8; 8]", "[u8; 16]")):
        pack(some if tier != "quick" or j < 2 else some[j % 2::2], backing, False)
        if tier != "quick":
            pack(some, backing, True)
    return S


def extra(prop, tier, seed):
    """more declarations for the two properties about a special shape"""
    rng = random.Random(9000 + seed)
    P = "pub "
    S = []
    heaps = ["[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 8]", "[u8; 17]", "[u8; 20]"]
    alls = list(UINTS) + heaps
    n = 40 if tier == "quick" else 200
    for i in range(n):
        if prop == "P26":
            while True:
                c = rand_struct(rng, heaps[i % len(heaps)], "heap random", heap=True, ignored=i % 9 == 4)
                ways = 1  # each flag multiplies the paths of every conversion
                for f in c.fields:
                    ways *= len(FLAGS[f.ty][2]) if f.ty in FLAGS else 1
                if c.bits < 100 or ways <= (8 if tier == "quick" else 64):
                    break
            S.append(c)
        else:
            b = alls[i % len(alls)]
            S.append(rand_struct(rng, b, "ignored random", heap=b[0] == "[" and i % 3 == 0, ignored=True))
    return S


SPECIAL = ("VIS", "MARK", "DEFAULT", "LIT", "DOCS")


def flag_decl(mid, rep, vals, base, args):
    vis = args.get("VIS", "pub ")
    kw = dict(marker=args.get("MARK", "base"), default=args.get("DEFAULT"), style=args.get("LIT", "dec"), docs=args.get("DOCS", False))
    args = {k: v for k, v in args.items() if k not in SPECIAL}
    a = "".join(", %s = %s" % kv for kv in args.items())
    return "pub mod %s {\nuse bitfields::bitflag;\n%s\n}" % (mid, flag_rs("Fl", rep, vals, base, a, **kw).replace("pub enum", (vis + "enum").replace("MID", mid)))


def flag_spec(mid, rep, vals, base, args):
    vis = args.get("VIS", "pub ").strip().replace("MID", mid)
    args = {k: v for k, v in args.items() if k not in SPECIAL}
    return dict(id=mid, name="Fl", rep=rep, k="flag", w=UINTS[rep], base=base, vals=[str(v) for v in vals],
                from_endian=args.get("from_endian", "big"), into_endian=args.get("into_endian", "big"), args=args, vis=vis)


if __name__ == "__main__":
    import sys
    lits = source_literals("/repo")
    print(lits)
    for tier in ("quick", "thorough"):
        c = corpus(tier, lits)
        print(tier, len(c), sum(s.bits for s in c), len(flag_cases(tier, lits)))
