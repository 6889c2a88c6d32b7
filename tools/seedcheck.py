"""Runs the checks against every planted bug on a scratch copy of the package: seedcheck.py [--all] [id ...]  (--all: every check, not only the property's own)"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

R = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("-")] or sorted(p.name for p in (R / "seeded").iterdir())
claimed = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(R / "MANIFEST.json"))["checks"]]


def run(i):
    d = R / "seeded" / i
    own = json.load(open(d / "meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed")
    try:
        shutil.copytree("/repo/src", t + "/src")
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", t, str(d / "patch.diff")], capture_output=True, text=True, cwd="/")
        if r.returncode:
            return f"{i}: patch does not apply {r.stderr[:100]}"
        hits, first = [], ""
        for pid in claimed if every else [own]:
            if pid not in claimed:
                continue
            o = subprocess.run([sys.executable, str(R / "sa/driver.py"), pid, "quick"], env={**os.environ, "VERIF_REPO_SRC": t + "/src", "VERIF_OUT": t}, capture_output=True, text=True)
            if o.returncode == 1:
                hits.append(pid)
                if pid == own:
                    first = next((x.strip()[:150] for x in o.stdout.splitlines() if x.startswith("  ")), "")
            elif o.returncode:
                hits.append(pid + "!" + str(o.returncode))
        return f"{'caught' if own in hits else 'MISSED'} {i} ({own}) by {','.join(hits) or '-'} {first}"
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(6) as ex:
    for x in ex.map(run, ids):
        print(x)
