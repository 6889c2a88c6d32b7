"""Driver: explores the condition valuations of scenarios, collects obligations and violations."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter

import terms
from interp import Budget, Policy, Unsupported
from scen import World
from values import PyExc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", HERE)  # self-tests write elsewhere


class Run:
    def __init__(self, W, flips):
        self.W = W
        self.I = W.I
        self.flips = flips
        self.result = None
        self.exc = None  # PyExc of the analysed program
        self.fail = None  # analysis gave up
        self.name = ""

    @property
    def base(self):
        return not self.flips

    def flipdesc(self):
        return [f"{k[0]}:{k[1]}" + (f"={v}" if v != "flip" else "") for k, v in self.flips.items()]


class Sink:
    """what a judge reports"""

    def __init__(self):
        self.obs = Counter()
        self.viol = []
        self.samples = []
        self.und = []

    def ob(self, name, n=1):
        self.obs[name] += n

    def bad(self, key, msg, site=None, **detail):
        self.viol.append({"key": key, "msg": msg, "site": fmt_site(site), "detail": {k: str(v)[:600] for k, v in detail.items()}})

    def check(self, ok, name, key, msg, site=None, **detail):
        self.obs[name] += 1
        if not ok:
            self.bad(key, msg, site, **detail)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(str(s)[:300])

    def undecided(self, s):
        self.und.append(str(s)[:300])


def fmt_site(s):
    if s is None:
        return None
    if isinstance(s, str):
        return s
    mod, fn, line, col = s
    return f"{mod.replace('.', '/')}.py:{line}:{col} in {fn}"


def one(task):
    """execute one valuation; returns picklable summary"""
    name, scen, judge, flips, wkw = task
    terms.reset()
    sys.setrecursionlimit(20000)
    sink = Sink()
    t0 = time.time()
    run = None
    sites = {}
    funcs = {}
    try:
        W = World(policy=Policy(flips), **wkw)
        run = Run(W, flips)
        run.name = name
        try:
            run.result = scen(W)
        except PyExc as e:
            run.exc = e
        except (Budget, Unsupported, RecursionError) as e:
            run.fail = repr(e)
        sites = dict(W.I.sites_seen)
        funcs = dict(W.I.calls)
        if run.fail is None:
            judge(run, sink)
        for u in W.I.undecided:
            sink.und.append(str(u)[:200])
    except Exception as e:  # the analysis itself failed: stay quiet, say so
        sink.und.append(f"analysis error in {name}: {e!r} {traceback.format_exc(limit=-3)[-400:]}")
        if run is not None:
            run.fail = repr(e)
            sites = dict(run.I.sites_seen)
    return {
        "name": name, "flips": flips, "sites": sites, "obs": dict(sink.obs), "viol": sink.viol, "samples": sink.samples,
        "und": sink.und[:10], "exc": str(run.exc) if run and run.exc else None, "fail": run.fail if run else "no world",
        "steps": run.I.steps if run else 0, "funcs": {str(k): v for k, v in funcs.items()}, "t": time.time() - t0,
        "events": len(run.I.events) if run else 0,
    }


_TASKS = {}


def _worker(i):
    return one(_TASKS[i])


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obs = Counter()
        self.viol = {}
        self.runs = 0
        self.crashed = 0
        self.und = Counter()
        self.samples = []
        self.funcs = set()
        self.sites = set()
        self.steps = 0
        self.scens = []
        self.t0 = time.time()
        self.notes = []
        self.excs = Counter()
        self.pending = []

    # --- explore --------------------------------------------------------------
    def explore(self, name, scen, judge, depth=None, limit=None, wkw=None, flips0=None):
        """base valuation, then each reachable condition site flipped (recursively to `depth`)"""
        if depth is None:
            depth = 2 if self.tier == "thorough" else 1
        if limit is None:
            limit = 2500 if self.tier == "thorough" else 400
        self.scens.append(name)
        wkw = wkw or {}
        base = dict(flips0 or {})
        done = set()
        frontier = [base]
        seen_sites = set()
        level = 0
        n = 0
        while frontier and n < limit:
            batch = []
            for f in frontier:
                k = tuple(sorted(f.items()))
                if k in done:
                    continue
                done.add(k)
                batch.append(f)
            batch = batch[: limit - n]
            res = self.run_batch([(name, scen, judge, f, wkw) for f in batch])
            n += len(res)
            nxt = []
            for r in res:
                self.absorb(r)
                fresh = [s for s in r["sites"] if s not in r["flips"]]
                if level == 0 or level < depth:
                    new = fresh if level == 0 or (self.tier == "thorough" and level < depth) else [s for s in fresh if s not in seen_sites]
                else:
                    # beyond the depth bound: only sites never seen before
                    new = [s for s in fresh if s not in seen_sites]
                for s in new:
                    nxt.append({**r["flips"], s: "flip"})
                seen_sites.update(fresh)
            frontier = nxt
            level += 1
            if depth == 0 or level > 6:
                break
        return n

    def base_only(self, name, scen, judge, wkw=None):
        return self.explore(name, scen, judge, depth=0, limit=1, wkw=wkw)

    def batch(self, jobs):
        """[(name, scen, judge)] base valuations in parallel"""
        res = self.run_batch([(n, s, j, {}, {}) for n, s, j in jobs])
        for r in res:
            self.scens.append(r["name"])
            self.absorb(r)

    def queue(self, name, scen, judge):
        self.pending.append((name, scen, judge))

    def flush(self):
        jobs, self.pending = self.pending, []
        self.batch(jobs)

    def run_batch(self, tasks):
        if len(tasks) <= 1:
            return [one(t) for t in tasks]
        global _TASKS
        _TASKS = dict(enumerate(tasks))
        n = min(8, len(tasks), os.cpu_count() or 2)
        with mp.get_context("fork").Pool(n) as p:
            return p.map(_worker, range(len(tasks)), chunksize=1)

    def absorb(self, r):
        self.runs += 1
        self.steps += r["steps"]
        if r["exc"]:
            self.crashed += 1
            self.excs[("BASE " if not r["flips"] else "") + r["name"] + ": " + r["exc"]] += 1
        if r["fail"]:
            self.und[f"{r['name']}: {r['fail']}"] += 1
        for u in r["und"]:
            self.und[u] += 1
        self.obs.update(r["obs"])
        self.funcs.update(r["funcs"])
        self.sites.update(r["sites"])
        for s in r["samples"]:
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)
        for v in r["viol"]:
            v = dict(v)
            v["scenario"] = r["name"]
            v["conditions"] = [f"{k[0]}:{k[1]}" for k in r["flips"]]
            self.viol.setdefault(v["key"], v)

    def ob(self, name, n=1):
        self.obs[name] += n

    def bad(self, key, msg, site=None, **detail):
        self.viol.setdefault(key, {"key": key, "msg": msg, "site": fmt_site(site), "detail": {k: str(v)[:600] for k, v in detail.items()}, "scenario": "source", "conditions": []})

    def check(self, ok, name, key, msg, site=None, **detail):
        self.obs[name] += 1
        if not ok:
            self.bad(key, msg, site, **detail)


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                parts = dict(x.split("=", 1) for x in line.split()[1:3] if "=" in x)
                out.setdefault(parts.get("property"), {})[parts.get("key")] = line
    return out


def main(argv):
    import rules

    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    rule = rules.RULES[pid]
    try:
        rule(ctx)
    except Exception:
        ctx.und["rule error: " + traceback.format_exc(limit=-3)[-500:]] += 1
    known = known_findings().get(pid, {})
    viol, kn = [], []
    for k, v in ctx.viol.items():
        (kn if k in known else viol).append(v)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "out"), exist_ok=True)
    total = sum(ctx.obs.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (rule.__doc__ or "").strip(),
            "obligations": total,
            "discharged": total - len(viol) - len(kn),
            "obligations_by_kind": dict(ctx.obs),
            "scenarios": len(set(ctx.scens)),
            "abstract_runs": ctx.runs,
            "runs_ending_in_an_exception_of_the_program": ctx.crashed,
            "condition_sites_flipped": len(ctx.sites),
            "functions_analysed": sorted(f for f in ctx.funcs)[:400],
            "statements_interpreted": ctx.steps,
            "samples": ctx.samples,
            "undecided": dict(ctx.und.most_common(20)),
        },
        "assumptions": ["library models in sa/lib_*.py describe the installed numpy/pandas/scipy/matplotlib/pydantic",
                        "loops over data of unknown length are represented by two generic elements; small scopes of chains and parameters"],
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(viol),
    }
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid}: {total} obligations, {ctx.runs} abstract runs over {len(set(ctx.scens))} scenarios, {len(ctx.sites)} condition sites, "
          f"{len(ctx.funcs)} functions, {sum(ctx.und.values())} undecided, {ev['wall_s']} s")
    if os.environ.get("SA_VERBOSE"):
        for u, n in ctx.und.most_common(12):
            print("  undecided", n, u[-230:].replace(chr(10), " "))
        for u, n in ctx.excs.most_common(25):
            print("  exc", n, u[:260])
        print("  obligations", dict(ctx.obs))
    for v in kn:
        print(f"KNOWN-FINDING: property={pid} key={v['key']} {v['msg']} at {v['site']}")
    if viol:
        for i, v in enumerate(viol):
            path = os.path.join(OUT, "out", f"{pid}-{i}.json")
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {v['msg']}  [{v['site']}]  scenario={v['scenario']} conditions={v['conditions'][:3]}")
            if os.environ.get("SA_VERBOSE"):
                print("   ", v["detail"], v["key"])
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
