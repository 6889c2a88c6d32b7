"""Self-test: applies small source edits to a scratch copy of the package and runs a check on it.

usage: mut.py [PID ...]; entries live in tools/mutants/*.txt:
=== PID bug|same file
<old text>
--->
<new text>
"""
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = pathlib.Path(__file__).resolve().parent.parent
ents = []
for f in sorted((R / "tools" / "mutants").glob("*.txt")):
    for blk in re.split(r"(?m)^=== ", f.read_text())[1:]:
        head, body = blk.split("\n", 1)
        pids, kind, file = head.split()[:3]
        edits = []
        for part in re.split(r"(?m)^&&& ?", body):
            fl = file
            if edits:
                fl, part = part.split("\n", 1)
                fl = fl.strip() or file
            old, new = re.split(r"(?m)^--->\n", part)
            edits.append((fl, old.rstrip("\n"), new.rstrip("\n")))
        ents.append((pids.split(","), kind, edits, f.name))
want = set(sys.argv[1:])


def run(e):
    pids, kind, edits, fn = e
    out = []
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.environ.get("MUT_SRC", "/repo/src"), d + "/src")
        for fl, old, new in edits:
            p = pathlib.Path(d, "src/chainconsumer", fl)
            s = p.read_text()
            if s.count(old) < 1:
                return [f"STALE {pids} {fn} {old[:60]!r}"]
            p.write_text(s.replace(old, new, 1))
            compile(p.read_text(), str(p), "exec")
        for pid in pids:
            if want and pid not in want:
                continue
            r = subprocess.run([sys.executable, str(R / "sa/driver.py"), pid, "quick"], cwd=d, env={**os.environ, "VERIF_REPO_SRC": d + "/src", "VERIF_OUT": d}, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            caught = bool(v) and r.returncode == 1
            ok = caught == (kind == "bug")
            info = [x.strip()[:150] for x in r.stdout.splitlines() if x.startswith("  ")][:2]
            out.append(f"{'ok  ' if ok else 'FAIL'} {pid} {kind} {edits[0][2].strip()[:70]!r} {'' if ok else (info or r.stderr[-300:])}")
        return out
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    res = [x for r in ex.map(run, [e for e in ents if not want or want & set(e[0])]) for x in r]
bad = [x for x in res if not x.startswith("ok")]
for x in res if os.environ.get("MUT_V") else bad:
    print(x)
print(len(res), "runs", len(bad), "unexpected")
