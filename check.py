#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo statically and writes evidence/<property>.json.
exit 0: held on everything analysed; exit 1 + VIOLATION line: broken;
exit 2: /repo does not build; exit 3: the analyser could not be built or run.
"""
import json
import os
import sys
import time
from collections import Counter
from pathlib import Path

import apimodel
import fixtures as fx
import gen
import staticchecks
from propinfo import SEMANTIC, LEVEL, RULES, FLOORS, TRUSTED, EXPL

HERE = Path(__file__).resolve().parent


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []   # (key, text)
        self.known = []
        self.coverage = {}
        self.assumptions = []

    def violation(self, key, text):
        self.violations.append((key, text))


def known_findings():
    out = []
    p = HERE / "known-findings.txt"
    for line in p.read_text().splitlines() if p.exists() else []:
        line = line.strip()
        if line.startswith("finding:"):
            body = line[len("finding:"):].strip()
            prop, key = body.split(None, 1)
            out.append((prop.split("=", 1)[1], key.split(" -- ")[0].strip(), line))
    return out


def repo_builds(r):
    """an error in the crates under analysis themselves, not in a declaration"""
    return not any(m[0] in ("bitfields", "bitfields_impl", "bitfields-impl") for m in r["msgs"])


def decl_of(structs, flags, mid):
    k = int(mid.split("::")[0][1:])
    if mid[0] == "s":
        return structs[k].rust(mid.split("::")[0])
    return gen.flag_decl(mid, *flags[k])


def semantic(rep):
    lits = gen.source_literals(fx.REPO)
    structs = gen.corpus(rep.tier, lits, rep.seed)
    flags = gen.flag_cases(rep.tier, lits) if rep.prop in ("P17", "P16") else []
    if rep.prop == "P17":
        structs = [s for s in structs if any(f.ty in gen.FLAGS for f in s.fields)]
    elif rep.prop == "P18":
        structs = [s for s in structs if any(f.ty in gen.FLAGS or f.ty in gen.CUSTOM or f.ty in gen.NEST for f in s.fields)]
    elif rep.prop == "P26":
        structs = [s for s in structs if s.args.get("array_heap") == "true"]
    elif rep.prop == "P25":
        structs = [s for s in structs if s.ignored]
    elif rep.prop == "P08":
        structs = [s for s in structs if s.arr]
    if rep.prop in gen.BIG:
        structs += gen.big_structs(rep.prop, rep.tier)
    if rep.prop in ("P11", "P12", "P13", "P16"):
        structs += gen.protected_sweep(rep.tier)
    if rep.prop in gen.SWEEP:
        sw = gen.width_sweep(rep.prop, rep.tier)
        if rep.prop == "P18":
            sw = [s for s in sw if any(f.ty in gen.CUSTOM for f in s.fields)]
        elif rep.prop in ("P09", "P16") and rep.tier == "quick":
            sw = sw[::{"P09": 2, "P16": 4}[rep.prop]]
        structs += sw
    if rep.prop in ("P25", "P26"):
        structs += gen.extra(rep.prop, rep.tier, rep.seed)
    return analyse(rep, structs, flags, [rep.prop], lits)


def analyse(rep, structs, flags, props, lits):
    w = fx.Work(rep.prop)
    try:
        dl = 620 if rep.tier == "quick" else 6 * 3600
        r = fx.run_semantic(w, structs, flags, props, lits, timeout=dl + 200, deadline=dl)
    finally:
        w.close()
    if not repo_builds(r):
        print("the crates under analysis do not compile:\n%s" % r["stderr"])
        sys.exit(2)
    if r["rc"] not in (0, -1) and not r["failed"] and r["crates"] < r["ncrates"]:
        print("the analyser did not finish: %s %s" % (r["msgs"], r["stderr"][-1500:]))
        sys.exit(3)
    for mid, errs in sorted(r["failed"].items()):
        s = decl_of(structs, flags, mid)
        tag = structs[int(mid[1:])].tag if mid[0] == "s" else "bitflag"
        rep.violation("%s: valid declaration rejected (%s)" % (mid, tag), "This declaration follows every documented rule and must compile:\n%s\n\n%s" % (s, errs[0]))
    for m in r["missing"]:
        rep.violation(m + " missing", "the declared type %s (or its storage) was not generated" % m)
    for m in r["storage"] if rep.prop in ("P20", "P22", "P26") else ():
        mid = m["struct"]
        rep.violation("%s storage" % mid, "%s is declared with %s storage but stores %s:\n%s" % (mid, m["declared"], m["actual"], decl_of(structs, flags, mid)))
    must = {}
    for k, s in enumerate(structs):
        mid = "s%d" % k
        if mid in r["failed"]:
            continue
        sp = s.spec(mid, lits)
        for grp, fns in apimodel.groups(sp).items():
            if grp == "always" or apimodel.on(sp, grp):
                for owner, name, _i, _o in fns:
                    must[("%s::%s%s" % (sp["id"], "Builder::" if owner == "B" else "", name))] = grp
    for a in r["absent"]:
        if a in must or a.startswith("g"):
            mid = a.split("::")[0]
            rep.violation(a + " missing", "function %s is documented for this declaration but was not generated:\n%s" % (a, decl_of(structs, flags, mid)))
    agg = {}
    for x in r["results"]:
        if x["kind"] != "violation":
            continue
        agg.setdefault((x["fn"].split("::")[-1] if x["struct"][0] == "s" else x["fn"], x["struct"]), []).append(x)
    for (fn, mid), xs in sorted(agg.items()):
        x = xs[0]
        rep.violation("%s %s" % (x["fn"], x["case"]), "function %s, case: %s\n  %s\n%s\n%d obligation(s) of this function fail\n\ndeclaration:\n%s\n" % (
            x["fn"], x["case"], x["msg"], "\n".join("  " + str(n) for n in x.get("notes", [])), len(xs), decl_of(structs, flags, mid)))
    c = r["counts"].get(rep.prop, {})
    total = sum(c.values())
    und = [x for x in r["results"] if x["kind"] != "violation" and x["prop"] == rep.prop]
    rep.coverage.update(
        obligations=total, discharged=c.get("ok", 0), undecided=total - c.get("ok", 0) - c.get("violation", 0), skipped_by_deadline=r["skipped"],
        checker_cmd="python3 check.py %s %s" % (rep.prop, rep.tier), trusted_base=TRUSTED,
        declarations=r["structs"], bitflag_declarations=r["flags"], declarations_rejected=len(r["failed"]),
        generated_functions_analysed=len(set(r["functions"].get(rep.prop, []))),
        mir_bodies_interpreted=r["mir_functions"], abstract_steps=r["steps"], path_forks=r["forks"], path_joins=r["joins"],
        samples=[structs[i].rust("s%d" % i) for i in (0, len(structs) // 2, len(structs) - 1) if i < len(structs)] + [gen.flag_decl("g%d" % i, *flags[i]) for i in range(0, len(flags), max(1, len(flags) // 2))],
        rule=RULES[rep.prop], backings=dict(Counter(s.backing for s in structs)), families=dict(Counter(s.tag for s in structs)),
        undecided_examples=[dict(fn=x["fn"], case=x["case"], why=x["msg"]) for x in und[:5]],
    )
    if r["rc"] == -1:
        rep.coverage["explanation"] = "the run hit its time limit; the counts are those of the crates that finished"
    floor = FLOORS.get(rep.prop)
    if rep.tier == "quick" and floor and r["rc"] == 0 and not r["failed"] and total + r["skipped"] < floor:
        rep.violation("obligation count fell", "only %d obligations were found where at least %d exist on the confirmed tree: generated functions disappeared" % (total, floor))
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fx.build_analyzer()
    rep = Report(prop, tier, seed)
    if prop in SEMANTIC:
        semantic(rep)
    extra = getattr(staticchecks, prop, None)
    if extra:
        extra(rep, analyse)
    finish(rep)


def finish(rep):
    ev = HERE / "evidence"
    ev.mkdir(exist_ok=True)
    listed = {k: line for p, k, line in known_findings() if p == rep.prop}
    live = []
    for key, text in rep.violations:
        if key in listed:
            rep.known.append(key)
        else:
            live.append((key, text))
    replay = ev / (rep.prop + ".replay.txt")
    if live:
        head = "property %s is violated: %d finding(s)\nre-run: cd /verif && VERIF_SEED=%d python3 check.py %s %s\n" % (rep.prop, len(live), rep.seed, rep.prop, rep.tier)
        replay.write_text(head + "\n".join("\n---- %s\n%s" % kt for kt in live[:60]) + "\n")
    elif replay.exists():
        replay.unlink()
    lvl = LEVEL[rep.prop]
    cov = rep.coverage
    if lvl == "translation_validation":
        # each declaration is a program the macro translated; each obligation compares translation and specification
        cov["programs"] = cov.get("declarations", 0) + cov.get("bitflag_declarations", 0) + cov.get("surface_declarations", 0) + cov.get("feature_programs", 0)
        cov["disagreements_checked"] = cov.get("obligations", 0)
        cov.setdefault("samples", [])
    else:
        cov["explanation"] = EXPL[rep.prop]
    rep.coverage["known_findings"] = rep.known
    doc = dict(property=rep.prop, tier=rep.tier, seed=rep.seed, level=lvl, coverage=rep.coverage,
               assumptions=rep.assumptions, wall_s=round(time.time() - rep.t0, 2), violations=len(live))
    (ev / (rep.prop + ".json")).write_text(json.dumps(doc, indent=1) + "\n")
    for k in rep.known:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, k))
    c = rep.coverage
    print("%s %s: %s obligations, %s discharged, %s undecided, %d violation(s), %.0f s" % (
        rep.prop, rep.tier, c.get("obligations"), c.get("discharged"), c.get("undecided", 0), len(live), time.time() - rep.t0))
    if live:
        for key, text in live[:8]:
            print("  " + key)
            for ln in text.splitlines()[:3]:
                print("      " + ln)
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
