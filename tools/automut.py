"""Mechanical mutants of the package: those that pass the repository's tests are put to every check until one reports a violation.
usage: automut.py SEED COUNT [file ...]"""
import ast
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path("/repo/src/chainconsumer")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def sites(f, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.Call) and (src(n.func).split(".")[0] in ("logger", "logging", "warnings", "Field") or src(n.func).endswith("warn")):
            skip |= {id(x) for x in ast.walk(n)}
        for a in ("annotation", "returns"):
            v = getattr(n, a, None)
            if v is not None:
                skip |= {id(x) for x in ast.walk(v)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            infn |= {id(x) for s in n.body for x in ast.walk(s)}
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield span(n), f"{src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])}"
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield span(n), f"({src(n.left)}) {BIN[type(n.op)]} ({src(n.right)})"
        elif isinstance(n, ast.BoolOp):
            yield span(n), "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({src(v)})" for v in n.values) + ")"
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield span(n), str(not n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield span(n), str(n.value + 1 if isinstance(n.value, int) else n.value * 1.5)
        elif isinstance(n, ast.If):
            yield span(n.test), f"not ({src(n.test)})"
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield span(n), "pass"
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, b = span(n.args[0]), span(n.args[1])
                yield (a[0], b[1]), f"{src(n.args[1])}, {src(n.args[0])}"
            for k in n.keywords:
                if k.arg:
                    a, b = span(n)
                    s = raw[a:b].decode()
                    ks = s.replace(src(k), "", 1)
                    yield (a, b), ks.replace(", ,", ",").replace("(, ", "(").replace(", )", ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield span(n), src(n.operand)
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is None and isinstance(n.lower, ast.Constant):
            pass


def build(m):
    f, (a, b), new = m
    raw = (SRC / f).read_bytes()
    return (raw[:a] + new.encode() + raw[b:]).decode()


def one(m):
    f, (a, b), new = m
    t = tempfile.mkdtemp(prefix="automut")
    try:
        s = build(m)
        try:
            compile(s, f, "exec")
        except SyntaxError:
            return None
        shutil.copytree("/repo/src", t + "/src")
        (pathlib.Path(t) / "src/chainconsumer" / f).write_text(s)
        shutil.copytree("/repo/tests", t + "/tests")
        shutil.copy("/repo/pyproject.toml", t)
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=t, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": t + "/src", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1"}, timeout=400)
        except subprocess.TimeoutExpired:
            return None
        last = (r.stdout.strip().splitlines() or ["?"])[-1]
        if " failed" in last or " error" in last or "passed" not in last:
            return None
        line = (SRC / f).read_bytes()[:a].count(b"\n") + 1
        head = f"{f}:{line} {(SRC / f).read_bytes()[a:b].decode()[:70]!r} -> {new[:70]!r}"
        und = []
        for pid in PIDS:
            try:
                o = subprocess.run([sys.executable, str(R / "sa/driver.py"), pid, "quick"], env={**os.environ, "VERIF_REPO_SRC": t + "/src", "VERIF_OUT": t + "/o", "SA_VERBOSE": "1"}, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                continue
            if o.returncode == 1:
                return f"{pid} {head}"
            if o.returncode:
                und.append(pid + "!")
        return f"MISSED {head} {und or ''}"
    finally:
        shutil.rmtree(t, ignore_errors=True)


PIDS = [c["property"] for c in json.loads((R / "MANIFEST.json").read_text())["checks"]]
FIRST = "C31 C27 C36 C38 C12 C33 C22 C23 C28 C10 C32 C34 C35 C07 C08 C09 C16 C18 C19 C20 C21 C24 C26 C29 C30 C14 C13 C11".split()
PIDS = os.environ.get("CHECKS", "").split() or [p for p in FIRST if p in PIDS] + [p for p in PIDS if p not in FIRST]
if __name__ == "__main__":
    rnd = random.Random(int(sys.argv[1]))
    files = sys.argv[3:] or [str(p.relative_to(SRC)) for p in sorted(SRC.rglob("*.py"))]
    allm = [(f, sp, new) for f in files for sp, new in sites(f, (SRC / f).read_text())]
    pick = rnd.sample(allm, min(int(sys.argv[2]), len(allm)))
    print(len(allm), "mutants,", len(pick), "picked", flush=True)
    with ThreadPoolExecutor(4) as ex:
        for x in ex.map(one, pick):
            if x:
                print(x, flush=True)
