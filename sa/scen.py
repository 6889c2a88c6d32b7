"""Scenarios: symbolic chains, consumers and configurations the rules are evaluated on."""
from __future__ import annotations

import interp
from interp import Interp, Policy
from terms import mk, c
from values import *  # noqa: F403
from values import NOWIT, SV, VDict, VFrame, VList


class World:
    """one interpreter with the package loaded and helpers to build inputs"""

    def __init__(self, policy=None, set_order=1, root=None):
        import os

        self.I = Interp(root or os.environ.get("VERIF_REPO_SRC", "/repo/src"), policy=policy, set_order=set_order)
        self.m = self.I.load("chainconsumer")
        self.chains = {}
        self.events0 = 0

    # -------------------------------------------------------------- package objects
    def cls(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        return self.I.load("chainconsumer." + mod).ns[name]

    def g(self, name):
        return self.m.ns[name]

    def call(self, obj, meth, *a, **k):
        return self.I.call(self.I.getattr(obj, meth), list(a), k)

    def attr(self, obj, path):
        for p in path.split("."):
            obj = self.I.getattr(obj, p)
        return obj

    # -------------------------------------------------------------- inputs
    def table(self, label, cols=("A", "B"), weight=True, posterior=True, index="range", wname="weight", pname="log_posterior", extra=(), order=None, rows=None):
        I = self.I
        n = SV(mk("nrows", rows or label), "scalar", nd=0)
        names = list(cols) + list(extra)
        if weight:
            names.append(wname)
        if posterior:
            names.append(pname)
        if order:
            names = order
        d = {}
        for nm in names:
            t = mk("col", label, nm)
            d[nm] = SV(t, "series", length=n, nd=1)
            I.facts[t] = {"finite": True, "length": n}
            if nm == wname:
                I.facts[t]["interval"] = (1e-300, 1e300)
        f = VFrame(d, n, index=index)
        f.owner = f"table {label}"
        for v in f.cols.values():
            v.owner = f"table {label}"
        return f

    def opt(self, owner, name, wit=NOWIT, kind=None):
        """option value: identity known, value only as a partition witness"""
        t = mk("opt", owner, name)
        if kind is None:
            kind = "str" if isinstance(wit, str) else ("bool" if isinstance(wit, bool) else ("scalar" if isinstance(wit, (int, float)) else None))
        v = SV(t, kind, wit=wit, nd=0 if kind in ("scalar", "bool") else None)
        if wit is not NOWIT:
            self.I.lib.witmap[t] = wit
        return v

    def chain(self, name, cols=("A", "B"), weight=True, posterior=True, index="range", extra=(), table=None, label=None, rows=None, **kw):
        label = label or name
        f = table if table is not None else self.table(label, cols, weight, posterior, index, extra=extra, rows=rows)
        ch = self.I.instantiate(self.cls("chain.Chain"), [], {"samples": f, "name": name, **kw})
        ch.label = label
        self.own(ch, f"chain {label}")
        self.chains[label] = ch
        return ch

    def own(self, obj, owner):
        """mark an object and everything reachable from it as the user's"""
        seen = set()
        todo = [obj]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, (Inst, VList, VDict, VSet, VFrame, SV)):
                if isinstance(x, SV) and x.term.op in ("opt", "c"):
                    continue
                x.owner = owner
            if isinstance(x, Inst):
                todo.extend(x.f.values())
                todo.extend(x.priv.values())
            elif isinstance(x, VList):
                todo.extend(x.items)
            elif isinstance(x, VDict):
                todo.extend(x.values())
            elif isinstance(x, VSet):
                todo.extend(x.d.values())
            elif isinstance(x, VFrame):
                todo.extend(x.cols.values())

    def truth(self, location, **kw):
        t = self.I.instantiate(self.cls("truth.Truth"), [], {"location": VDict(location.items()), **kw})
        t.label = kw.get("name") if isinstance(kw.get("name"), str) else None
        return t

    def config(self, **kw):
        return self.I.instantiate(self.cls("plotting.config.PlotConfig"), [], kw)

    def consumer(self, *chains, config=None, truths=(), override=None):
        I = self.I
        cc = I.instantiate(self.cls("chainconsumer.ChainConsumer"), [], {})
        for ch in chains:
            self.call(cc, "add_chain", ch)
        for t in truths:
            self.call(cc, "add_truth", t)
        if override is not None:
            self.call(cc, "set_override", override)
        if config is not None:
            self.call(cc, "set_plot_config", config)
        return cc

    def mark(self):
        self.events0 = len(self.I.events)
        self.I.record = True

    def events(self, kind=None, since=None):
        evs = self.I.events[self.events0 if since is None else since:]
        return [e for e in evs if kind is None or e.kind == kind]

    def calls(self, name=None):
        return [e for e in self.events("ext") if name is None or e.name == name]
