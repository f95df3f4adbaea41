"""The properties decided on the type-checked program's surface and by
compile-fail witnesses, rather than by abstract interpretation of bodies."""
import concurrent.futures as cf
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import sys
from collections import Counter

import apimodel
import fixtures as fx
import gen
import rejects
from propinfo import RULES, TRUSTED


def base_cov(rep, **kw):
    rep.coverage.update(checker_cmd="python3 check.py %s %s" % (rep.prop, rep.tier), trusted_base=TRUSTED, rule=RULES[rep.prop], **kw)


IMPL = ("bitfields", "bitfields_impl", "bitfields-impl")


def bail(r):
    if any(m[0] in IMPL for m in r["msgs"]):
        print("the crates under analysis do not compile:\n%s" % r["stderr"])
        sys.exit(2)
    if r["rc"] not in (0, -1) and not r["failed"] and r["crates"] < r["ncrates"]:
        print("the analyser did not finish: %s %s" % (r["msgs"], r["stderr"][-1500:]))
        sys.exit(3)


def report_failed(rep, r, structs, flags):
    for mid, errs in sorted(r["failed"].items()):
        d = structs[int(mid[1:])].rust(mid) if mid[0] == "s" else gen.flag_decl(mid, *flags[int(mid[1:])])
        rep.violation("%s: valid declaration rejected" % mid, "This declaration follows every documented rule and must compile:\n%s\n\n%s" % (d, errs[0]))


def surface(rep, structs, flags, rules, lits):
    w = fx.Work(rep.prop)
    try:
        r = fx.run_semantic(w, structs, flags, [], lits)
    finally:
        w.close()
    bail(r)
    report_failed(rep, r, structs, flags)
    n = Counter()
    bad = 0
    for k, s in enumerate(structs):
        mid = "s%d" % k
        if mid in r["failed"]:
            continue
        out, counts = apimodel.check_struct(s.spec(mid, lits), r["api"])
        n.update(counts)
        for rule, where, msg in out:
            if rule in rules:
                bad += 1
                rep.violation("%s: %s" % (where, msg), "%s: %s\n\ndeclaration:\n%s\n" % (where, msg, s.rust(mid)))
    for k, f in enumerate(flags):
        mid = "g%d" % k
        if mid in r["failed"]:
            continue
        out, counts = apimodel.check_flag(gen.flag_spec(mid, *f), r["api"])
        n.update(counts)
        for rule, where, msg in out:
            if rule in rules:
                bad += 1
                rep.violation("%s: %s" % (where, msg), "%s: %s\n\ndeclaration:\n%s\n" % (where, msg, gen.flag_decl(mid, *f)))
    tot = sum(n[x] for x in rules)
    c = rep.coverage
    c["obligations"] = c.get("obligations", 0) + tot
    c["discharged"] = c.get("discharged", 0) + tot - bad
    c["samples"] = c.get("samples", []) + [structs[i].rust("s%d" % i) for i in (0, len(structs) // 2, len(structs) - 1) if i < len(structs)]
    c["surface_declarations"] = len(structs) + len(flags) - len(r["failed"])
    c["surface_families"] = dict(Counter(s.tag for s in structs))
    return r


def P20(rep, _):
    lits = gen.source_literals(fx.REPO)
    structs = gen.config_corpus(rep.tier, rep.seed) + gen.corpus("quick", lits, rep.seed)
    base_cov(rep)
    surface(rep, structs, gen.flag_cases("quick", lits) + gen.flag_config_cases(), ("P20",), lits)


def P21(rep, _):
    lits = gen.source_literals(fx.REPO)
    structs = gen.config_corpus(rep.tier, rep.seed) + gen.corpus(rep.tier, lits, rep.seed)
    base_cov(rep)
    surface(rep, structs, gen.flag_cases("quick", lits) + gen.flag_config_cases(), ("P21",), lits)


def P25(rep, _):
    lits = gen.source_literals(fx.REPO)
    structs = [s for s in gen.config_corpus(rep.tier, rep.seed) + gen.corpus("quick", lits, rep.seed) if s.ignored] + gen.extra("P25", rep.tier, rep.seed)
    surface(rep, structs, [], ("P25",), lits)


def P22(rep, _):
    lits = gen.source_literals(fx.REPO)
    structs = [s for s in gen.config_corpus(rep.tier, rep.seed) + gen.corpus(rep.tier, lits, rep.seed)]
    flags = gen.flag_cases("quick", lits) + gen.flag_config_cases()
    base_cov(rep)
    r = surface(rep, structs, flags, ("P22",), lits)
    for u in r["unsafes"]:
        if u.startswith("types::"):
            k = u
        else:
            k = "::".join(u.split("::")[1:])
        rep.violation("unsafe block in %s" % u, "the generated body of %s contains an unsafe block" % u)
    rep.coverage["bodies_scanned_for_unsafe"] = r["bodies"]
    rep.coverage["obligations"] += r["bodies"]
    rep.coverage["discharged"] += r["bodies"] - len(r["unsafes"])
    # everything not heap-backed resolves and type-checks in a crate that has neither std nor alloc
    ns = [s for s in structs if not (s.arr and s.args.get("array_heap") == "true")]
    for edition, sub in (("2021", ns), ("2018", ns[::7]), ("2024", ns[::5])):
        w = fx.Work(rep.prop + "ns" + edition)
        try:
            r = fx.run_semantic(w, sub, flags if edition == "2021" else flags[::6], [], lits, header="\n#![no_std]\n", edition=edition)
        finally:
            w.close()
        bail(r)
        for mid, errs in sorted(r["failed"].items()):
            d = sub[int(mid[1:])].rust(mid) if mid[0] == "s" else gen.flag_decl(mid, *(flags if edition == "2021" else flags[::6])[int(mid[1:])])
            rep.violation("%s rejected in a no_std crate" % mid, "This declaration must compile in an edition-%s crate without std or alloc:\n%s\n\n%s" % (edition, d, errs[0]))
        n = len(sub) + (len(flags) if edition == "2021" else len(flags[::6]))
        rep.coverage["no_std_declarations_" + edition] = n
        rep.coverage["obligations"] += n
        rep.coverage["discharged"] += n - len(r["failed"])


# ------------------------------------------------------------------ P19, P27

def compile_modules(work, name, mods, header="", timeout=700, edition="2021", dep=None, allow="#![allow(warnings)]"):
    """Type-check modules [(mid, text)] in one crate with stock rustc; returns {mid: [(code, message, rendered)]}, rc"""
    d = work.dir / name
    (d / "src").mkdir(parents=True)
    text = "%s%s\npub mod types {\nuse bitfields::{bitfield, bitflag};\n%s\n}\n" % (allow, header, gen.types_rs())
    index = []
    for mid, t in mods:
        a = text.count("\n") + 1
        text += t + "\n"
        index.append((a, text.count("\n"), mid))
    (d / "src/lib.rs").write_text(text)
    (d / "Cargo.toml").write_text(fx.CARGO % dict(name=name, dep=dep or fx.dep_line(), edition=edition) + "[workspace]\n")
    shutil.copy(fx.REPO + "/Cargo.lock", d / "Cargo.lock")
    e = fx.env(work, [])
    e.pop("RUSTC_WORKSPACE_WRAPPER")
    e["RUSTFLAGS"] = "--diagnostic-width=200"
    rc, msgs, err = fx.cargo_check(d, e, timeout, args=())
    errs = {}
    other = []
    starts = [a for a, _, _ in index]
    import bisect
    for crate, rendered, code, lines, short in msgs:
        if crate in ("bitfields", "bitfields_impl", "bitfields-impl"):
            print("the crates under analysis do not compile:\n%s" % rendered)
            sys.exit(2)
        hit = False
        for ln in lines:
            k = bisect.bisect_right(starts, ln) - 1
            if k >= 0 and index[k][0] <= ln <= index[k][1]:
                errs.setdefault(index[k][2], []).append((code, short, rendered))
                hit = True
        if not hit:
            other.append(short)
    shutil.rmtree(d)
    return errs, rc, other, err


def P19(rep, _):
    """every rule-breaking declaration is refused, its nearest valid neighbour is not"""
    lits = gen.source_literals(fx.REPO)
    bad, good = rejects.cases(rep.tier, rep.seed, lits)
    base_cov(rep)
    w = fx.Work("P19")
    try:
        todo = [("r%d" % i, c) for i, c in enumerate(bad)]
        rejected = {}
        rounds = 0
        while todo and rounds < 8:
            rounds += 1
            errs, rc, other, err = compile_modules(w, "w%d" % rounds, [(m, c[1].replace("MID", m)) for m, c in todo], allow="")
            if rc == -1:
                print("time limit"); sys.exit(3)
            rejected.update({m: errs[m] for m, _ in todo if m in errs})
            rest = [(m, c) for m, c in todo if m not in errs]
            if rc == 0 or len(rest) == len(todo):
                todo = rest
                break
            todo = rest
        for m, c in todo:
            rep.violation("accepted: %s" % c[0], "This declaration breaks a documented rule (%s) but compiles:\n%s" % (c[0], c[1]))
        by = dict(("r%d" % i, c) for i, c in enumerate(bad))
        for m, es in rejected.items():
            if all("unexpected error" in s for _, s, _ in es) and es:
                rep.violation("internal error: %s" % by[m][0], "This declaration must be refused with a diagnostic, not by a panic inside the macro:\n%s\n%s" % (by[m][1], es[0][2]))
        errs, rc, other, err = compile_modules(w, "good", [("a%d" % i, c[1].replace("MID", "a%d" % i)) for i, c in enumerate(good)])
        for m, es in sorted(errs.items()):
            c = good[int(m[1:])]
            rep.violation("rejected: %s" % c[0], "This declaration follows every documented rule (%s) but is refused:\n%s\n%s" % (c[0], c[1], es[0][2]))
        n = len(bad) + len(good)
        rep.coverage.update(obligations=n, discharged=n - len(todo) - len(errs), must_be_rejected=len(bad), must_be_accepted=len(good),
                            rejection_rounds=rounds, families=dict(Counter(c[0].split(":")[0] for c in bad)), accept_families=dict(Counter(c[0].split(":")[0] for c in good)),
                            rejected_by=dict(Counter(("rustc " + str(es[0][0])) if es[0][0] else "macro diagnostic" for es in rejected.values())))
    finally:
        w.close()


def P27(rep, _):
    lits = gen.source_literals(fx.REPO)
    good = rejects.unusual(rep.tier, rep.seed)
    base_cov(rep)
    n = bad = 0
    w = fx.Work("P27")
    try:
        for ed in ("2021", "2018", "2024"):
            sub = good if ed == "2021" else good[::2]
            errs, rc, other, err = compile_modules(w, "e" + ed, [("a%d" % i, c[1].replace("MID", "a%d" % i)) for i, c in enumerate(sub)], edition=ed)
            if rc not in (0, 101):
                print("could not type-check the declarations: rc %s %s" % (rc, err[-800:])); sys.exit(3)
            n += len(sub)
            bad += len(errs)
            for m, es in sorted(errs.items()):
                c = sub[int(m[1:])]
                rep.violation("rejected: %s (edition %s)" % (c[0], ed), "This declaration is valid (%s) but does not compile in edition %s:\n%s\n%s" % (c[0], ed, c[1], es[0][2]))
        # malformed input must give a diagnostic, never a panic
        odd = rejects.malformed(rep.tier, rep.seed, lits)
        errs, rc, other, err = compile_modules(w, "odd", [("r%d" % i, c[1].replace("MID", "r%d" % i)) for i, c in enumerate(odd)])
        for i, c in enumerate(odd):
            es = errs.get("r%d" % i, [])
            n += 1
            if any("unexpected error" in s or "panicked" in s for _, s, _ in es):
                bad += 1
                rep.violation("panic: %s" % c[0], "The macro panicked instead of reporting an error or accepting:\n%s\n%s" % (c[1], es[0][2]))
    finally:
        w.close()
    # declarations with large numbers of fields / large arrays, through the whole corpus in one go
    structs = gen.corpus(rep.tier, lits, rep.seed + 1) + gen.config_corpus(rep.tier, rep.seed + 1)
    w = fx.Work("P27")
    try:
        r = fx.run_semantic(w, structs, gen.flag_cases(rep.tier, lits), [], lits)
    finally:
        w.close()
    bail(r)
    report_failed(rep, r, structs, gen.flag_cases(rep.tier, lits))
    n += len(structs)
    bad += len(r["failed"])
    rep.coverage.update(obligations=n, discharged=n - bad, unusual=len(good), malformed=len(odd), corpus=len(structs), families=dict(Counter(c[0].split(":")[0] for c in good + odd)))


# ------------------------------------------------------------------ P23

PAIRS = [  # argument, feature that turns it on, feature that turns it off
    ("new", "generate_new", "disable_new"), ("from_into_bits", "generate_from_into_bits", "disable_from_into_bits"),
    ("from_traits", "generate_from_traits", "disable_from_traits"), ("default", "generate_default", "disable_default"),
    ("debug", "generate_debug", "disable_debug"), ("copy", "derive_copy", "disable_copy"), ("bit_ops", "generate_bit_ops", "disable_bit_ops"),
    ("write_bit_ops", "generate_write_bit_ops", "disable_write_bit_ops"), ("clear_bit_ops", "generate_clear_bit_ops", "disable_clear_bit_ops"),
    ("set_get_bit_ops", "generate_set_get_bit_ops", "disable_set_get_bit_ops"), ("invert_bit_ops", "generate_invert_bit_ops", "disable_invert_bit_ops"),
    ("toggle_bit_ops", "generate_toggle_bit_ops", "disable_toggle_bit_ops"), ("builder", "generate_builder", "disable_builder"),
    ("array_heap", "enable_array_heap", "disable_array_heap"), ("flag_copy", "bitflag_derive_copy", "bitflag_disable_copy"),
]
ENDS = [("order", "order_lsb", "order_msb"), ("from_endian", "from_endian_big", "from_endian_little"), ("into_endian", "into_endian_big", "into_endian_little"),
        ("write_endian", "write_endian_big", "write_endian_little"), ("flag_from_endian", "bitflag_from_endian_big", "bitflag_from_endian_little"),
        ("flag_into_endian", "bitflag_into_endian_big", "bitflag_into_endian_little")]


def feature_defaults(feats):
    """the documented defaults under a set of features (never both of a pair)"""
    d = {}
    for a, on, off in PAIRS:
        stock = a != "array_heap"
        d[a] = True if on in feats else False if off in feats else stock
    for a, stock, other in ENDS:
        v = {"order": ("lsb", "msb")}.get(a, ("big", "little"))
        d[a] = v[0] if stock in feats else v[1] if other in feats else v[0]
    return d


def feature_sets(tier, seed):
    rng = random.Random(500 + seed)
    allp = PAIRS + ENDS
    out = [(), tuple(p[2] for p in allp), tuple(p[1] for p in allp)]
    # every "off"/"other" feature and every "on" feature alone, packed pairwise-independently
    for p in allp:
        out.append((p[2],))
    # every combination of choices for every two groups
    for row in gen.covering(rng, len(allp), 3):
        out.append(tuple(p[c] for p, c in zip(allp, row) if c))
    for k in range(4 if tier == "quick" else 90):
        out.append(tuple(p[c] for p in allp for c in [rng.choice([0, 1, 2, 2])] if c))
    return out


class FStruct(gen.Struct):
    """a declaration whose unspecified arguments come from the feature set"""
    def __init__(self, dfl, *a, **k):
        super().__init__(*a, **k)
        self.dfl = dfl

    def spec(self, mid, lits):
        keep = dict(self.args)
        for a in ("order", "from_endian", "into_endian", "write_endian"):
            if a not in self.args:
                self.args[a] = self.dfl[a]
        if self.arr and "array_heap" not in self.args:
            self.args["array_heap"] = "true" if self.dfl["array_heap"] else "false"
        sp = super().spec(mid, lits)
        self.args.clear()
        self.args.update(keep)
        sp["args"] = dict(keep)
        sp["defaults"] = self.dfl
        return sp


def P23(rep, _):
    lits = []
    P = "pub "
    base_cov(rep)
    sets = feature_sets(rep.tier, rep.seed)
    F = gen.Field

    def structs(dfl):
        out = []
        for backing in ("u32", "[u8; 3]"):
            n = gen.natural(backing)
            fs = [F("a", "u8", 5, vis=P, default=("0x13", 0x13)), F("b", "u8", 7, "ro", ("0x2a", 0x2A), vis=P), F("c", "u32", n - 12, vis=P)]
            out.append(FStruct(dfl, backing, fs, tag="stock arguments"))
            # explicit arguments win over features
            ex = {p[0]: "false" if dfl[p[0]] else "true" for p in PAIRS if p[0] not in ("flag_copy", "array_heap")}
            ex.update({p[0]: {"big": "little", "little": "big", "lsb": "msb", "msb": "lsb"}[dfl[p[0]]] for p in ENDS[:4]})
            if backing[0] == "[":
                ex["array_heap"] = "false" if dfl["array_heap"] else "true"
            out.append(FStruct(dfl, backing, fs, tag="all arguments explicit", **ex))
            for a in ("bit_ops", "new", "write_endian", "from_endian"):
                out.append(FStruct(dfl, backing, fs, tag="one argument explicit", **{a: ex[a]}))
        return out

    def flags(dfl):
        b = {"big": "little", "little": "big"}
        return [("u16", [1, 0x0203, 9], 2, {}), ("u32", [5, 0x01020304, 0], 0, dict(from_endian=b[dfl["flag_from_endian"]], into_endian=b[dfl["flag_into_endian"]], copy="false" if dfl["flag_copy"] else "true"))]

    props = ["P01", "P05", "P07", "P10", "P17"]
    w = fx.Work("P23")
    total = ok = 0
    try:
        def one(worker, k, feats):
            dfl = feature_defaults(feats)
            ss = structs(dfl)
            fl = flags(dfl)
            sub = fx.Work.__new__(fx.Work)
            sub.dir = w.dir / ("f%d" % k)
            sub.dir.mkdir()

            def fspec(mid, rp, vals, base, args):
                sp = gen.flag_spec(mid, rp, vals, base, args)
                sp["from_endian"] = args.get("from_endian", dfl["flag_from_endian"])
                sp["into_endian"] = args.get("into_endian", dfl["flag_into_endian"])
                return sp
            r = fx.run_semantic(sub, ss, fl, props, lits, dep=fx.dep_line(list(feats), "impl"), ncrates=1, target=w.dir / ("t%d" % worker), types=False, flag_spec=fspec)
            shutil.rmtree(sub.dir)
            return feats, dfl, ss, fl, r

        import queue
        q = queue.Queue()
        for i in range(8):
            q.put(i)

        def job(k, feats):
            wk = q.get()
            try:
                return one(wk, k, feats)
            finally:
                q.put(wk)
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda kv: job(*kv), enumerate(sets)))
        built = [not any(m[0] in IMPL for m in x[4]["msgs"]) for x in res]
        for (feats, dfl, ss, fl, r), good in zip(res, built):
            name = "features [%s]" % ", ".join(feats)
            if not good and any(built):
                total += 1
                rep.violation("%s: the macro crate does not compile" % name, "With %s the macro crate itself does not compile, though it does with other features:\n%s" % (name, r["stderr"]))
                continue
            bail(r)
            for m in r["storage"]:
                rep.violation("%s: %s storage" % (name, m["struct"]), "With %s this declaration asks for %s storage but stores %s:\n%s" % (name, m["declared"], m["actual"], ss[int(m["struct"][1:])].rust("s")))
            for mid, errs in list(r["failed"].items()):
                total += 1
                rep.violation("%s: declaration rejected" % name, "With %s this declaration does not compile:\n%s\n%s" % (name, ss[int(mid[1:])].rust(mid) if mid[0] == "s" else gen.flag_decl(mid, *fl[int(mid[1:])]), errs[0]))
            for k, s in enumerate(ss):
                mid = "s%d" % k
                if mid in r["failed"]:
                    continue
                out, n = apimodel.check_struct(s.spec(mid, lits), r["api"])
                total += n["P20"]
                out = [o for o in out if o[0] == "P20"]
                ok += n["P20"] - len(out)
                for rule, where, msg in out:
                    rep.violation("%s: %s: %s" % (name, where, msg), "With %s: %s: %s\n%s" % (name, where, msg, s.rust(mid)))
            for k, f in enumerate(fl):
                mid = "g%d" % k
                if mid in r["failed"]:
                    continue
                sp = gen.flag_spec(mid, *f)
                sp["defaults"] = {"copy": dfl["flag_copy"]}
                out, n = apimodel.check_flag(sp, r["api"])
                out = [o for o in out if o[0] == "P20"]
                total += n["P20"]
                ok += n["P20"] - len(out)
                for rule, where, msg in out:
                    rep.violation("%s: %s: %s" % (name, where, msg), "With %s: %s: %s" % (name, where, msg))
            for rr in (r,):
                for x in rr["results"]:
                    if x["kind"] == "violation":
                        rep.violation("%s: %s %s" % (name, x["fn"], x["case"]), "With %s: %s %s: %s" % (name, x["fn"], x["case"], x["msg"]))
                for c in rr["counts"].values():
                    total += sum(c.values())
                    ok += c.get("ok", 0)
        # the facade crate: a feature of `bitfields` must reach the implementation crate
        nf = facade(rep)
        total += nf[0]
        ok += nf[1]
    finally:
        w.close()
    dfl = feature_defaults(())
    rep.coverage.update(obligations=total, discharged=ok, feature_sets=len(sets), feature_programs=len(sets) * (len(structs(dfl)) + len(flags(dfl))), samples=[s.rust("s") for s in structs(dfl)[:2]], facade_features=nf[0], feature_sets_sample=[list(s) for s in sets[-3:]])


def facade(rep):
    """resolve bitfields' own features with cargo (no build) and compare what reaches the implementation"""
    feats = [x for p in PAIRS + ENDS for x in p[1:]]
    n = good = 0
    w = fx.Work("P23meta")
    try:
        for f in ["default"] + feats:
            d = w.dir / f
            (d / "src").mkdir(parents=True)
            (d / "src/lib.rs").write_text("")
            dep = fx.dep_line() if f == "default" else fx.dep_line([f])
            (d / "Cargo.toml").write_text(fx.CARGO % dict(name="m", dep=dep, edition="2021") + "[workspace]\n")
            shutil.copy(fx.REPO + "/Cargo.lock", d / "Cargo.lock")
            e = fx.env(w, [])
            p = subprocess.run(["cargo", "metadata", "--offline", "--format-version=1"], cwd=d, env=e, capture_output=True, text=True)
            n += 1
            if p.returncode != 0:
                rep.violation("feature `%s` of bitfields does not exist" % f, "the documented feature %s cannot be selected:\n%s" % (f, p.stderr[-800:]))
                continue
            m = json.loads(p.stdout)
            got = set()
            for node in m["resolve"]["nodes"]:
                if "bitfields_impl" in node["id"] or "bitfields-impl" in node["id"]:
                    got = set(node["features"])
            dg, dw = feature_defaults(got), feature_defaults({f} if f != "default" else set())
            if dg != dw:
                diff = sorted(k for k in dg if dg[k] != dw[k])
                rep.violation("bitfields feature `%s` does not reach the macro" % f, "with bitfields' feature %s alone the macro crate resolves %s, so the defaults of %s differ from the documented ones" % (f, sorted(got), diff))
            else:
                good += 1
    finally:
        w.close()
    return n, good
