"""Behaviour-preserving edits of the package; every check has to stay quiet on each: refactors.py [-t] [id ...]   (-t: also run the repository's tests on the edited copy)"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = pathlib.Path(__file__).resolve().parent.parent
EDITS = []


def parse(text):
    """=== id / @@ file / old / ---> / new"""
    for blk in re.split(r"(?m)^=== ", text)[1:]:
        rid, rest = blk.split("\n", 1)
        ed = []
        for part in re.split(r"(?m)^@@ ", rest)[1:]:
            f, body = part.split("\n", 1)
            old, new = re.split(r"(?m)^--->\n", body)
            ed.append((f.strip(), old.rstrip("\n") + "\n", new.rstrip("\n") + "\n"))
        EDITS.append((rid.strip(), ed))


def one(item):
    rid, ed = item
    t = tempfile.mkdtemp(prefix="refac")
    try:
        shutil.copytree("/repo/src", t + "/src")
        for f, old, new in ed:
            p = pathlib.Path(t, "src/chainconsumer", f)
            s = p.read_text()
            if s.count(old) != 1:
                return f"STALE {rid}: {f}: {old[:60]!r} occurs {s.count(old)} times"
            s = s.replace(old, new)
            try:
                compile(s, f, "exec")
            except SyntaxError as e:
                return f"SYNTAX {rid}: {f}: {e}"
            p.write_text(s)
        out = []
        if "-t" in sys.argv:
            for d in ("tests",):
                shutil.copytree("/repo/" + d, t + "/" + d)
            shutil.copy("/repo/pyproject.toml", t)
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=t, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": t + "/src", "MPLBACKEND": "Agg"})
            last = (r.stdout.strip().splitlines() or ["?"])[-1]
            if " failed" in last or " error" in last or "passed" not in last:
                out.append("TESTS " + last + " ".join(x[:120] for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:300])
        for pid in os.environ.get("CHECKS", "").split() or [c["property"] for c in json.loads((R / "MANIFEST.json").read_text())["checks"]]:
            o = subprocess.run([sys.executable, str(R / "sa/driver.py"), pid, "quick"], env={**os.environ, "VERIF_REPO_SRC": t + "/src", "VERIF_OUT": t}, capture_output=True, text=True)
            if o.returncode == 1:
                out.append(pid + " ALARM " + next((x.strip()[:230] for x in o.stdout.splitlines() if x.startswith("  ")), ""))
            elif o.returncode:
                out.append(f"{pid} rc={o.returncode} {o.stderr[-200:]}")
            else:
                m = re.search(r", (\d+) undecided", o.stdout)
                n = int(m.group(1)) if m else 0
                if n > {"C10": 4, "C14": 5}.get(pid, 0):
                    out.append(f"{pid} undecided {n}")
        return f"{'BAD ' if any('ALARM' in x or 'rc=' in x or 'TESTS' in x for x in out) else 'ok  '} {rid}" + "".join("\n      " + x for x in out)
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    for f in sorted((R / "tools/refactors").glob("*.txt")):
        parse(f.read_text())
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [e for e in EDITS if not want or e[0] in want or any(e[0].startswith(w) for w in want if w.endswith("-"))]
    if "-b" in sys.argv:
        # several edits per tree (those that do not touch each other's text), to get through all checks in reasonable time
        groups = []
        src = pathlib.Path("/repo/src/chainconsumer")
        for rid, ed in todo:
            for g in groups:
                texts = {f: (src / f).read_text() for _, e in g for f, _, _ in e} | {f: (src / f).read_text() for f, _, _ in ed}
                good = len(g) < 10
                for _, e in [*g, (rid, ed)]:
                    for f, old, new in e:
                        good = good and texts[f].count(old) == 1
                        texts[f] = texts[f].replace(old, new)
                if good:
                    g.append((rid, ed))
                    break
            else:
                groups.append([(rid, ed)])
        todo = [("+".join(r for r, _ in g), [x for _, e in g for x in e]) for g in groups]
        print(len(todo), "trees", flush=True)
    with ThreadPoolExecutor(7) as ex:
        for x in ex.map(one, todo):
            print(x, flush=True)
