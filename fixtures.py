"""Lays out fixture crates, type-checks them with the analyser as the compiler
driver, and collects what it found.  Fixture crates are only ever checked, never
linked or run."""
import json
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

import gen

HERE = Path(__file__).resolve().parent
REPO = os.environ.get("BFCHECK_REPO", "/repo")
ANALYZER = HERE / "analyzer"
BIN = ANALYZER / "target/release/bfcheck"
NCRATES = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_analyzer():
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=ANALYZER, capture_output=True, text=True)
    if r.returncode != 0 or not BIN.exists():
        log(r.stderr[-4000:])
        raise SystemExit(3)


def weight(s):
    return s.bits * (len(s.fields) + 2) * (2 if s.arr else 1) + (3000 if s.bits > 100 else 0) + 200


class Work:
    def __init__(self, name):
        base = Path(os.environ.get("BFCHECK_WORK", str(HERE / ".work")))
        self.dir = base / ("%s-%d" % (name, os.getpid()))
        if self.dir.exists():
            shutil.rmtree(self.dir)
        self.dir.mkdir(parents=True)
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        try:
            self.dir.parent.rmdir()
        except OSError:
            pass


def env(work, props):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "UPDATE_DOCS"):
            e.pop(k)
    e.update(
        BFCHECK_DIR=str(work.dir / "out"), BFCHECK_PROPS=",".join(props), LD_LIBRARY_PATH=sysroot() + "/lib",
        RUSTC_WORKSPACE_WRAPPER=str(BIN), CARGO_TARGET_DIR=str(work.dir / "target"), CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN="nightly", RUST_MIN_STACK=str(1 << 28),
    )
    return e


def cargo_check(cwd, e, timeout=840, args=("--workspace", "--keep-going")):
    """returns (rc, [(crate, rendered, code, [lines])], stderr)"""
    try:
        r = subprocess.run(["cargo", "check", "--offline", "--message-format=json", *args], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -1, [], "timeout"
    msgs = []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        lines = []
        for sp in m["message"]["spans"]:
            while sp.get("expansion"):
                sp = sp["expansion"]["span"]
            if sp["file_name"].endswith("lib.rs"):
                lines.append(sp["line_start"])
        code = (m["message"].get("code") or {}).get("code")
        msgs.append((m["target"]["name"], m["message"]["rendered"] or m["message"]["message"], code, lines, m["message"]["message"]))
    return r.returncode, msgs, r.stderr


CARGO = """[package]
name = "%(name)s"
version = "0.0.0"
edition = "%(edition)s"
[dependencies]
%(dep)s
"""


def dep_line(features=None, crate="bitfields"):
    path = REPO + ("/bitfields" if crate == "bitfields" else "/bitfields_impl")
    f = ""
    if features is not None:
        f = ", default-features = false, features = [%s]" % ", ".join('"%s"' % x for x in features)
    pkg = "" if crate == "bitfields" else ', package = "bitfields-impl"'
    return 'bitfields = { path = "%s"%s%s }' % (path, pkg, f)


def run_semantic(work, structs, flags, props, lits, timeout=840, deadline=600, header="", edition="2021", dep=None, ncrates=None, target=None, types=True, flag_spec=None):
    """Analyse the corpus; returns dict with merged results."""
    out = work.dir / "out"
    out.mkdir(exist_ok=True)
    ws = work.dir / "ws"
    n = min(ncrates or NCRATES, max(1, len(structs) + (1 if flags else 0)))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for i in sorted(range(len(structs)), key=lambda i: -weight(structs[i])):
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += weight(structs[i])
    members = []
    alive = {}
    for k in range(n):
        alive["fx%d" % k] = ([(i, structs[i]) for i in sorted(bins[k])], list(enumerate(flags)) if k == load.index(min(load)) else [])
        members.append("fx%d" % k)
    ws.mkdir()
    (ws / "Cargo.toml").write_text('[workspace]\nresolver = "2"\nmembers = [%s]\n' % ", ".join('"%s"' % m for m in members))
    shutil.copy(REPO + "/Cargo.lock", ws / "Cargo.lock")
    e = env(work, props)
    if target:
        e["CARGO_TARGET_DIR"] = str(target)
    e["BFCHECK_DEADLINE"] = str(deadline)
    failed = {}
    stderr = ""
    todo = list(members)
    for attempt in range(6):
        index = {}
        for m in members:
            d = ws / m
            (d / "src").mkdir(parents=True, exist_ok=True)
            sl, fl = alive[m]
            text, spec, lines = render(sl, fl, lits, header, types, flag_spec)
            src = d / "src/lib.rs"
            if not src.exists() or src.read_text() != text:
                src.write_text(text)
                (d / "Cargo.toml").write_text(CARGO % dict(name=m, dep=dep or dep_line(), edition=edition))
                (out / (m + ".spec.json")).write_text(json.dumps(spec))
            index[m] = lines
        rc, msgs, stderr = cargo_check(ws, e, timeout)
        if rc == 0 or rc == -1:
            break
        dropped = False
        for name, rendered, code, lns, short in msgs:
            if name not in index:
                continue
            for ln in lns:
                for a, b, mid in index[name]:
                    if a <= ln <= b:
                        failed.setdefault(mid, []).append(rendered)
                        sl, fl = alive[name]
                        alive[name] = ([x for x in sl if "s%d" % x[0] != mid], [x for x in fl if "g%d" % x[0] != mid])
                        dropped = True
                        break
        if not dropped:
            break
    res = dict(rc=rc, failed=failed, stderr=stderr[-3000:], results=[], counts={}, functions={}, missing=[], storage=[], absent=[], unsafes=[], bodies=0, api={}, structs=0,
               flags=0, skipped=0, steps=0, forks=0, joins=0, mir_functions=0, crates=0, msgs=[(m[0], m[4]) for m in msgs][:10] if rc else [])
    for m in members:
        f = out / (m + ".out.json")
        if not f.exists():
            continue
        o = json.loads(f.read_text())
        res["crates"] += 1
        for k in ("results", "missing", "storage", "absent", "unsafes"):
            res[k] += o[k]
        for k in ("structs", "flags", "steps", "forks", "joins", "skipped", "bodies"):
            res[k] += o[k]
        mf = o["mir_functions"]
        res["mir_functions"] += len(mf) if not isinstance(mf, int) else mf
        for p, c in o["counts"].items():
            for kk, v in c.items():
                res["counts"].setdefault(p, {}).setdefault(kk, 0)
                res["counts"][p][kk] += v
        for p, fs in o["functions"].items():
            res["functions"].setdefault(p, []).extend(fs)
        for k, v in o["api"].items():
            if not k.startswith("types::"):
                res["api"][k] = v
    res["ncrates"] = len(members)
    return res


def render(sl, fl, lits, header="", types=True, flag_spec=None):
    text = "\n".join(["#![allow(warnings)]" + header, "pub mod types {", "use bitfields::{bitfield, bitflag};", gen.types_rs() if types else "", "}"]) + "\n"
    lines, specs, fspecs = [], [], []
    for i, s in sl:
        mid = "s%d" % i
        a = text.count("\n") + 1
        text += s.rust(mid) + "\n"
        lines.append((a, text.count("\n"), mid))
        specs.append(s.spec(mid, lits))
    for i, f in fl:
        mid = "g%d" % i
        a = text.count("\n") + 1
        text += gen.flag_decl(mid, *f) + "\n"
        lines.append((a, text.count("\n"), mid))
        fspecs.append((flag_spec or gen.flag_spec)(mid, *f))
    return text, dict(structs=specs, flags=fspecs), lines
