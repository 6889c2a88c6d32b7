"""Builds and confirms planted bugs from tools/plants.py entries: /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.

usage: plant.py [id ...]   (a scratch copy of /repo is tested by running build and tests with the patch applied to /repo itself, then undone)
Steps per plant: patch applies to HEAD and touches no line added by a fix commit; demo passes on the clean tree; build, stable tests and
the demo's failure are confirmed with the patch applied; the patch is always undone.
"""
import json
import os
import pathlib
import re
import subprocess
import sys
import textwrap

R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R / "tools"))
import plants  # noqa: E402

REPO = pathlib.Path("/repo")
BASE = "5e6a4aa"
SRC = REPO / "src/chainconsumer"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d):
    return sh("bash", str(d / "demo.sh"), cwd=REPO, timeout=300)


def clean():
    sh("git", "-C", str(REPO), "checkout", "--", ".")


HEAD = """import os
import sys
import tempfile
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
_scratch = tempfile.TemporaryDirectory()
os.environ["MPLCONFIGDIR"] = _scratch.name
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd
import matplotlib
import matplotlib.pyplot as plt
from chainconsumer import *
from chainconsumer.statistics import SummaryStatistic


"""
SHELL = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def main():
    ids = sys.argv[1:] or [p["id"] for p in plants.PLANTS]
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", []))) if os.path.exists("/opt/vp/BASELINE.json") else set()
    assert not sh("git", "-C", str(REPO), "status", "--short").stdout.strip(), "repo not clean"
    for p in plants.PLANTS:
        if p["id"] not in ids:
            continue
        d = R / "seeded" / p["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.sh").write_text(SHELL)
        (d / "demo.py").write_text(HEAD + textwrap.dedent(p["demo"]).strip("\n") + "\n")
        (d / "meta.json").write_text(json.dumps({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        probs = []
        try:
            r = demo(d)
            if r.returncode != 0:
                probs.append("demo fails on the clean tree: " + (r.stderr or r.stdout)[-300:])
            for f, old, new in p["edits"]:
                s = (SRC / f).read_text()
                if s.count(old) < 1:
                    probs.append(f"stale edit {old[:50]!r}")
                    continue
                i = s.index(old)
                l0 = s[:i].count("\n") + 1
                n = old.rstrip("\n").count("\n") + 1
                bl = sh("git", "-C", str(REPO), "blame", "-s", "-L", f"{l0},{l0 + n - 1}", BASE + "..HEAD", "--", f"src/chainconsumer/{f}").stdout
                newl = set(new.splitlines())
                for ln, tx in zip(bl.splitlines(), old.splitlines()):
                    if not ln.startswith("^") and tx not in newl:
                        probs.append("touches a fix line: " + ln[:90])
                (SRC / f).write_text(s.replace(old, new, 1))
            diff = sh("git", "-C", str(REPO), "diff").stdout
            (d / "patch.diff").write_text(diff)
            if not diff.strip():
                probs.append("empty diff")
            b = sh("bash", "/opt/vp/build.sh")
            if b.returncode:
                probs.append("build fails " + b.stderr[-200:])
            r = demo(d)
            if r.returncode == 0:
                probs.append("demo does not fail with the patch")
            print(p["id"], "demo says:", (r.stderr or r.stdout).strip().splitlines()[-1:][0][:140] if (r.stderr or r.stdout).strip() else "")
            t = sh("bash", "/opt/vp/test.sh", "/tmp/w/plant.json")
            res = json.load(open("/tmp/w/plant.json"))
            txt = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ""
            if not re.search(r"(?<!\d)0 failed", txt) and ("failed" in txt or "error" in txt):
                probs.append("tests: " + txt + " " + " ".join(x[:90] for x in t.stdout.splitlines() if x.startswith("FAILED"))[:300])
        finally:
            clean()
        print(("OK  " if not probs else "BAD ") + p["id"], *probs, sep="\n    " if probs else " ")


main()
