"""What the documentation promises about the generated API, as data.

`expected(spec)` maps every function/constant/trait a declaration must have to
the configuration group (P20) or the field-access rule (P21) that requires it;
`forbidden(spec)` lists names that must not exist.  The model is written from
the README's configuration table and access rules, not from the generator.
"""

from collections import Counter

BOOL_ARGS = {
    "new": "new", "from_into_bits": "from_into_bits", "from_traits": "from_traits", "default": "default",
    "debug": "debug", "copy": "copy", "builder": "builder", "write_bit_ops": "write_bit_ops",
    "clear_bit_ops": "clear_bit_ops", "set_get_bit_ops": "set_get_bit_ops", "invert_bit_ops": "invert_bit_ops",
}
BIT_OPS = ("write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops")
RES = "std::result::Result<%s, &str>"


def on(spec, arg):
    """Is a group on?  spec['defaults'] overrides the stock defaults (cargo features)."""
    args, dfl = spec["args"], spec.get("defaults", {})
    def val(a):
        return args[a] == "true" if a in args else dfl.get(a, True)
    if arg in BIT_OPS and not val("bit_ops"):
        return args.get(arg) == "true"
    return val(arg)


def heap(spec):
    if not spec["arr"]:
        return False
    a = spec["args"]
    return a["array_heap"] == "true" if "array_heap" in a else spec.get("defaults", {}).get("array_heap", False)


def vis_str(vis, module):
    """declared visibility -> the form the analyser prints"""
    if vis == "pub":
        return "pub"
    if vis == "":
        return "in:" + module
    if vis == "pub(crate)" or vis == "pub(in crate)":
        return "in:"
    if vis == "pub(super)":
        return "in:" + "::".join(module.split("::")[:-1])
    if vis == "pub(self)":
        return "in:" + module
    if vis.startswith("pub(in crate::"):
        return "in:" + vis[len("pub(in crate::"):-1]
    raise ValueError(vis)


def rty(f):
    return f["rty"].replace("crate::", "")


def readable(f):
    return not f["reserved"] and f["access"] in ("rw", "ro")


def writable(f):
    return not f["reserved"] and f["access"] in ("rw", "wo")


def groups(spec):
    """group -> [(owner, name, ins, out)], for every documented group (on or off)"""
    S = spec["id"] + "::" + spec["name"]
    B = S + "Builder"
    back = spec["backing"]
    u = "bytes" if spec["arr"] else "bits"
    me, mm = "&" + S, "&mut " + S
    g = {k: [] for k in ("new", "from_into_bits", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "builder", "always")}
    def add(k, owner, name, ins, out):
        g[k].append((owner, name, ins, out))
    add("new", "S", "new", [], S)
    add("new", "S", "new_without_defaults", [], S)
    for e in ("", "le_", "be_"):
        for d in ("", "_with_defaults"):
            add("from_into_bits", "S", "from_%s%s%s" % (e, u, d), [back], S)
        add("from_into_bits", "S", "into_%s%s" % (e, u), [me if spec["arr"] else S], back)
        if spec["arr"]:
            for d in ("", "_with_defaults"):
                add("from_into_bits", "S", "from_%sslice%s" % (e, d), ["&[u8]"], S)
                add("from_into_bits", "S", "checked_from_%sslice%s" % (e, d), ["&[u8]"], RES % S)
            add("from_into_bits", "S", "into_%sslice" % e, [me, "&mut [u8]"], "()")
            add("from_into_bits", "S", "checked_into_%sslice" % e, [me, "&mut [u8]"], RES % "()")
        for d in ("", "_with_defaults"):
            add("write_bit_ops", "S", "write_%s%s%s" % (e, u, d), [mm, back], "()")
    add("write_bit_ops", "S", "write_defaults", [mm], "()")
    add("clear_bit_ops", "S", "clear_" + u, [mm], "()")
    add("clear_bit_ops", "S", "clear_%s_with_defaults" % u, [mm], "()")
    add("set_get_bit_ops", "S", "get_bit", [me, "u32"], "bool")
    add("set_get_bit_ops", "S", "checked_get_bit", [me, "u32"], RES % "bool")
    add("set_get_bit_ops", "S", "set_bit", [mm, "u32", "bool"], "()")
    add("set_get_bit_ops", "S", "checked_set_bit", [mm, "u32", "bool"], RES % "()")
    add("set_get_bit_ops", "S", "get_%s_range" % u, [me, "u32", "u32"], back)
    add("set_get_bit_ops", "S", "checked_get_%s_range" % u, [me, "u32", "u32"], RES % back)
    add("set_get_bit_ops", "S", "set_%s_range" % u, [mm, "u32", "u32", back], "()")
    add("set_get_bit_ops", "S", "checked_set_%s_range" % u, [mm, "u32", "u32", back], RES % "()")
    add("invert_bit_ops", "S", "invert_" + u, [mm], "()")
    add("builder", "B", "new", [], B)
    add("builder", "B", "new_without_defaults", [], B)
    add("builder", "B", "build", [B], S)
    for f in spec["fields"]:
        n, t = f["name"], rty(f)
        if readable(f):
            add("always", "S", n, [me], t)
            add("invert_bit_ops", "S", n + "_inverted", [me], t)
        if writable(f):
            add("always", "S", "set_" + n, [mm, t], "()")
            add("always", "S", "checked_set_" + n, [mm, t], RES % "()")
            add("clear_bit_ops", "S", "clear_" + n, [mm], "()")
            if "default" in f:
                add("clear_bit_ops", "S", "clear_%s_to_default" % n, [mm], "()")
            add("invert_bit_ops", "S", "invert_" + n, [mm], "()")
        if not f["reserved"] and f["access"] != "na":
            add("builder", "B", "with_" + n, [B, t], B)
            add("builder", "B", "checked_with_" + n, [B, t], RES % B)
    return g


FIELD_FNS = ("%s", "%s_inverted", "set_%s", "checked_set_%s", "clear_%s", "clear_%s_to_default", "invert_%s")


def field_rules(spec):
    """per field: (names that must not exist on the bitfield, on the builder, constants present?)"""
    for f in spec["fields"]:
        n = f["name"]
        bad = []
        if not readable(f):
            bad += ["%s" % n, "%s_inverted" % n]
        if not writable(f):
            bad += ["set_" + n, "checked_set_" + n, "clear_" + n, "clear_%s_to_default" % n, "invert_" + n]
        bbad = []
        if f["reserved"]:
            bbad = ["with_" + n, "checked_with_" + n]
        yield f, bad, bbad, readable(f) or writable(f)


def norm(v):
    return v


def check_struct(spec, api, want_groups=True, want_fields=True, want_const=True):
    """yields (rule, message) for every mismatch and counts obligations via the list `n`"""
    out, n = [], Counter()
    S = spec["id"] + "::" + spec["name"]
    module = spec["id"]
    a, b = api.get(S), api.get(S + "Builder")
    if a is None:
        return [("P20", S, "the struct %s was not generated" % S)], Counter(P20=1)
    def items(x, k):
        return {i["name"]: i for i in x["items"] if i["k"] == k} if x else {}
    fa, fb, ca = items(a, "fn"), items(b, "fn"), items(a, "const")
    def ob(ok, rule, where, msg):
        n[rule] += 1
        if not ok:
            out.append((rule, where, msg))
    svis = vis_str(spec["vis"], module)
    byname = {f["name"]: f for f in spec["fields"]}
    constok = not spec["ignored"] and not heap(spec)
    ob(a["vis"] == svis, "P21", S, "struct visibility is %s, declared %s" % (a["vis"], spec["vis"] or "private"))
    all_names = {}
    for grp, fns in groups(spec).items():
        live = grp == "always" or on(spec, grp)
        for owner, name, ins, res in fns:
            have = (fa if owner == "S" else fb).get(name)
            w = "%s::%s" % (S if owner == "S" else S + "Builder", name)
            rule = "P21" if grp == "always" else "P20"
            if live:
                if have is None:
                    ob(False, rule, w, "%s is missing (%s)" % (name, "group `%s` is on" % grp if grp != "always" else "field accessor"))
                    continue
                ob(have["in"] == ins and have["out"] == res, rule, w, "signature is (%s) -> %s, documented (%s) -> %s" % (
                    ", ".join(have["in"]), have["out"], ", ".join(ins), res))
                if constok:
                    ob(have["const"], "P22", w, "%s is not a const fn although the bitfield has no ignored field and is not heap-backed" % name)
                ob(not have["unsafe"], "P22", w, "%s is an unsafe fn" % name)
                # visibility
                fld = None
                for pat in ("with_%s", "checked_with_%s") if owner == "B" else FIELD_FNS:
                    for f in spec["fields"]:
                        if pat % f["name"] == name:
                            fld = f
                if fld is None:
                    if grp not in ("clear_bit_ops", "invert_bit_ops") or name in ("clear_bits", "clear_bytes", "invert_bits", "invert_bytes"):
                        ob(have["vis"] == svis, "P21", w, "visibility is %s, the struct's is %s" % (have["vis"], svis))
                elif grp in ("clear_bit_ops", "invert_bit_ops"):
                    # operations on a field are not its accessors: the struct's visibility or the field's
                    ob(have["vis"] in (svis, vis_str(fld["vis"] or spec["vis"], module)), "P21", w, "visibility is %s, neither the struct's nor the field's" % have["vis"])
                elif fld["vis"] and fld["access"] in ("rw", "ro"):
                    ob(have["vis"] == vis_str(fld["vis"], module), "P21", w, "visibility is %s, the field was declared %s" % (have["vis"], fld["vis"]))
            else:
                ob(have is None, "P20", w, "%s exists although group `%s` is off" % (name, grp))
    ob((b is not None) == on(spec, "builder"), "P20", S + "Builder", "builder type %s although `builder` is %s" % (
        "exists" if b else "is missing", "on" if on(spec, "builder") else "off"))
    if b is not None:
        ob(b["vis"] == svis, "P21", S + "Builder", "builder visibility is %s, the struct's is %s" % (b["vis"], svis))
    for f, bad, bbad, consts in field_rules(spec):
        for nm in bad:
            if nm in byname:
                continue
            ob(nm not in fa, "P21", "%s::%s" % (S, nm), "%s exists although field `%s` is %s" % (nm, f["name"], "reserved" if f["reserved"] else "access = " + f["access"]))
        for nm in bbad:
            ob(nm not in fb, "P21", "%sBuilder::%s" % (S, nm), "%s exists although field `%s` is reserved" % (nm, f["name"]))
        if f["access"] == "na":
            for nm in ("with_" + f["name"], "checked_with_" + f["name"]):
                ob(nm not in fb or fb[nm]["vis"] == "in:" + module, "P21", "%sBuilder::%s" % (S, nm), "%s of a no-access field is visible outside its module" % nm)
        for suf in ("_BITS", "_OFFSET"):
            nm = f["name"].upper() + suf
            w = "%s::%s" % (S, nm)
            if consts:
                ob(nm in ca and ca[nm]["ty"] == "u32", "P21", w, "constant %s missing or not u32" % nm)
                if nm in ca and f["vis"] and f["access"] in ("rw", "ro"):
                    ob(ca[nm]["vis"] == vis_str(f["vis"], module), "P21", w, "visibility is %s, the field was declared %s" % (ca[nm]["vis"], f["vis"]))
    tr = set(a["traits"])
    back = spec["backing"]
    def has(t):
        return t in tr
    def trait(ok, present, what, grp):
        ob(ok == present, "P20", S + ": " + what, "impl %s %s although `%s` is %s" % (what, "exists" if present else "is missing", grp, "on" if ok else "off"))
    trait(on(spec, "from_traits"), has("%s: std::convert::From<%s>" % (S, back)), "From<%s>" % back, "from_traits")
    trait(on(spec, "from_traits"), has("%s: std::convert::From<%s>" % (back, S)), "From<%s> for %s" % (spec["name"], back), "from_traits")
    trait(on(spec, "default"), has("%s: std::default::Default" % S), "Default", "default")
    trait(on(spec, "debug"), has("%s: std::fmt::Debug" % S), "Debug", "debug")
    trait(on(spec, "copy") and not heap(spec), has("%s: std::marker::Copy" % S), "Copy", "copy")
    trait(on(spec, "copy"), has("%s: std::clone::Clone" % S), "Clone", "copy")
    # storage
    fields = {f["name"]: f for f in a["fields"]}
    store = "std::boxed::Box<%s>" % back if heap(spec) else back
    own = [f for nm, f in fields.items() if nm not in {i[0] for i in spec.get("ignored_decl", [])}]
    val = own[0] if len(own) == 1 else None
    ob(val is not None and val["vis"] == "in:" + module, "P21", S, "the raw storage is visible outside the bitfield's module, so protected bits can be overwritten")
    ob(val is not None and val["ty"] == store, "P20", S, "backing storage is %s, documented %s" % (val and val["ty"], store))
    if not spec["ignored"]:
        ob(a["transparent"] and len(fields) == 1, "P22", S, "the struct is not a transparent wrapper of its backing type")
    for nm, ty, _pos, vis in spec.get("ignored_decl", []):
        f = fields.get(nm)
        ob(f is not None and norm_ty(f["ty"]) == norm_ty(ty), "P25", "%s.%s" % (S, nm), "ignored field is %s, declared %s" % (f and f["ty"], ty))
        if f is not None:
            want = vis_str(vis.strip(), module) if vis.strip() else "in:" + module
            for prop in ("P21", "P25"):
                ob(f["vis"] == want, prop, "%s.%s" % (S, nm), "visibility is %s, the ignored field was declared %s" % (f["vis"], vis.strip() or "private"))
    return out, n


def norm_ty(t):
    return t.replace("crate::", "").replace("std::", "").replace("alloc::", "").replace(" ", "").split("::")[-1]


def check_flag(spec, api):
    out, n = [], Counter()
    F = spec["id"] + "::" + spec["name"]
    a = api.get(F)
    if a is None:
        return [("P20", F, "the enum %s was not generated" % F)], Counter(P20=1)
    fns = {i["name"]: i for i in a["items"] if i["k"] == "fn"}
    rep = spec["rep"]
    def ob(ok, rule, where, msg):
        n[rule] += 1
        if not ok:
            out.append((rule, where, msg))
    for nm, ins, res in (("from_bits", [rep], F), ("into_bits", [F], rep)):
        h = fns.get(nm)
        w = "%s::%s" % (F, nm)
        if h is None:
            ob(False, "P20", w, "%s is missing" % nm)
            continue
        ob(h["in"] == ins and h["out"] == res, "P20", w, "signature is (%s) -> %s" % (", ".join(h["in"]), h["out"]))
        ob(h["vis"] == vis_str(spec.get("vis", "pub"), spec["id"]), "P21", w, "visibility is %s" % h["vis"])
        ob(h["const"], "P22", w, "%s is not const" % nm)
        ob(not h["unsafe"], "P22", w, "%s is unsafe" % nm)
    cp = spec["args"].get("copy", "true" if spec.get("defaults", {}).get("copy", True) else "false") == "true"
    for t in ("std::marker::Copy", "std::clone::Clone"):
        ob(("%s: %s" % (F, t) in a["traits"]) == cp, "P20", F, "impl %s %s although `copy` is %s" % (t, "missing" if cp else "exists", cp))
    return out, n
