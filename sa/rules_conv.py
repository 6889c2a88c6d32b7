"""Sampler conversions (C29)."""
from __future__ import annotations

from itertools import combinations, permutations

from common import *  # noqa: F403
from rules_misc import message
from terms import Term, leaves, mk, num, show, subterms
from values import NOWIT, SV, Cls, ExtObj, Inst, Native, PyExc, VDict, VFrame, VList, to_term

SAME = {"ravel", "flatten", "reshape", "asarray", "array", "to_numpy", "squeeze", "copy", "float", "astype", "asanyarray", "atleast_1d", "values", "concatenate", "hstack"}


def inst(W, name, methods, attrs):
    k = Cls(name, name, [], None)
    k.ns.update({n: Native(n, f) for n, f in methods.items()})
    o = Inst(k)
    o.f.update(attrs)
    return o


def own_cols(W, ch):
    return [W.attr(ch, "weight_column"), W.attr(ch, "posterior_column")]


def origin(t, leafs):
    """(leaf, None) when the term is that leaf up to reshaping; (leaf, part) when it is a selection of it"""
    part = None
    while isinstance(t, Term):
        if t in leafs:
            return t, part
        if t.op in ("ravel", "reshape", "T", "bcast", "slice0"):
            t = t.a[0]
        elif t.op == "call" and t.a[0].split(".")[-1] in SAME and t.a[1]:
            t = t.a[1][0][1]
        elif t.op in ("smeth", "mcall"):
            return None, None
        elif t.op in ("item", "elem", "part", "rows"):
            part = t
            t = t.a[0]
        elif t.op == "list" and len(t.a[0]) == 1:
            t = t.a[0][0]
        else:
            return None, None
    return None, None


def C29(ctx):
    """The converters are interpreted with sampler objects that only record what is asked of them and hand out labelled values: for every selection of the variables (every subset, in every
    order, named or excluded with '~', empty, absent, mixed) the columns of the resulting chain and the value each holds are compared with the sampler's variables; thinning and burn-in are
    opaque symbols that must arrive in the sampler call; every option of a chain given to a converter must arrive in the chain as it does when the chain is built directly."""
    full = ctx.tier == "thorough"

    def mcmc(W, names):
        t = W.table("sampler", cols=names, weight=False, posterior=False)
        W.leaf = {t.cols[n].term: n for n in names}

        def samples(a, kw):
            return VDict([(n, SV(t.cols[n].term, "array", length=t.nrows, nd=1)) for n in names])
        return inst(W, "MCMC", {"get_samples": samples}, {}), t

    def idata(W, names):
        t = W.table("sampler", cols=names, weight=False, posterior=False)
        W.leaf = {t.cols[n].term: n for n in names}
        W.extract = []

        def extract(a, kw):
            vs = kw.get("var_names", a[2] if len(a) > 2 else None)
            grp = kw.get("group", a[1] if len(a) > 1 else "posterior")
            W.extract.append((vs, grp, kw))
            vs = [vs] if isinstance(vs, str) else list(W.I.iterate(vs)) if vs is not None else None
            if vs is None:
                keep = list(names)
            elif vs and all(isinstance(v, str) and v.startswith("~") for v in vs):
                keep = [n for n in names if "~" + n not in vs]
            else:
                for v in vs:
                    if v not in names:
                        W.I.throw(KeyError, f"var names: {v} are not present in dataset")
                keep = [n for n in dict.fromkeys(vs)]
            comb = kw.get("combined", True) is not False

            def frame(a2, kw2):
                cols = {"chain": SV(mk("sym", "ix", "chain"), "series", length=t.nrows, nd=1), "draw": SV(mk("sym", "ix", "draw"), "series", length=t.nrows, nd=1)} if comb else {}
                cols.update({n: SV(t.cols[n].term, "series", length=t.nrows, nd=1) for n in keep})
                return VFrame(cols, t.nrows, "any")
            ns = {n: SV(t.cols[n].term, "array", length=t.nrows, nd=1) for n in keep}
            ds = VDict(list(ns.items()))
            return inst(W, "Dataset", {"to_dataframe": frame, "keys": lambda a2, k2: VList(list(keep)), "items": lambda a2, k2: VList([(n, v) for n, v in ns.items()])}, {"data_vars": ds, "variables": ds})
        W.I.lib.ext_overrides["arviz.extract"] = extract
        post = VDict([(n, SV(t.cols[n].term, "array", length=t.nrows, nd=1)) for n in names])
        return inst(W, "InferenceData", {}, {"posterior": post}), t

    def emcee(W, names):
        W.asked = []
        n = SV(mk("nrows", "sampler"), "scalar", nd=0)
        W.leaf = {}
        leafs = []
        for nm in names:
            t = mk("col", "sampler", nm)
            W.I.facts[t] = {"finite": True}
            W.leaf[t] = nm
            leafs.append(t)

        def chain(a, kw):
            W.asked.append(dict(kw))
            f = VFrame({nm: SV(t, "series", length=n, nd=1) for nm, t in zip(names, leafs)}, n, "range")
            m = W.I.lib.frame_numpy(f)
            return m
        return inst(W, "EnsembleSampler", {"get_chain": chain}, {"ndim": len(names)})

    def convert(W, how, names, sel, kw):
        cls = W.cls("chain.Chain")
        if how == "numpyro":
            m, t = mcmc(W, names)
        else:
            m, t = idata(W, names)
        k = dict(kw)
        if sel is not Ellipsis:
            k["var_names"] = VList(list(sel)) if sel is not None else None
        W.mark()
        return W.I.call(W.I.getattr(cls, f"from_{how}"), [m, "the name"], k)

    NAMES = ("mu", "mu_2", "u", "tau")

    def expected(names, sel):
        if sel is Ellipsis or not sel:
            return list(names)
        neg = {v.startswith("~") for v in sel}
        if len(neg) != 1:
            return None
        if True in neg:
            return [n for n in names if "~" + n not in sel]
        return [n for n in names if n in sel]

    def scen(how, names, sel):
        def go(W):
            try:
                W.ch = convert(W, how, names, sel, {})
            except PyExc as e:
                W.ch = e
        return go

    def judge(how, names, sel):
        def go(run, s):
            W = run.W
            what = f"from_{how} with variables {list(names)} and var_names {'absent' if sel is Ellipsis else sel}"
            if run.exc is not None:
                s.undecided(f"{what}: {run.exc.cname} at {run.exc.where}")
                return
            want = expected(names, sel)
            ch = W.ch
            if want is None:
                s.ob("mixture rejected")
                if not isinstance(ch, PyExc):
                    s.bad(f"{how} mixture", f"{what} is accepted")
                elif ch.implicit:
                    s.undecided(f"{what}: ends in {ch.cname} at {ch.where}")
                return
            s.ob("selection converted")
            if isinstance(ch, PyExc):
                if not ch.implicit or "NoneType" in message(ch):
                    s.bad(f"{how} refused {'empty' if not sel else 'selection'}", f"{what} fails: {ch.cname}: {message(ch)[:120]}", ch.where)
                elif how == "arviz" and ch.cname == "KeyError":
                    s.bad(f"{how} names", f"{what} asks arviz for {message(ch)[:80]}", ch.where)
                else:
                    s.undecided(f"{what}: {ch.cname} at {ch.where}")
                return
            f = W.attr(ch, "samples")
            if not isinstance(f, VFrame):
                s.undecided(f"{what}: samples is {type(f).__name__}")
                return
            got = [n for n in f.cols if n not in own_cols(W, ch)]
            s.check(got == want, "columns are the selected variables in order", f"{how} columns", f"{what} keeps {got}, requested {want}")
            s.check(W.attr(ch, "name") == "the name", "name passed", f"{how} name", f"{what}: the chain is named {W.attr(ch, 'name')!r}")
            for n in got:
                if n not in names:
                    continue
                t, part = origin(to_term(f.cols[n]), W.leaf)
                s.ob("column value traced")
                if t is None:
                    ls = {W.leaf[x] for x in leaves(to_term(f.cols[n])) if x in W.leaf}
                    if ls and ls != {n}:
                        s.bad(f"{how} values", f"{what}: column {n!r} holds values of {sorted(ls)}")
                    else:
                        s.undecided(f"{what}: column {n!r} is {show(to_term(f.cols[n]), 3)[:80]}")
                elif W.leaf[t] != n:
                    s.bad(f"{how} values", f"{what}: column {n!r} holds the values of {W.leaf[t]!r}")
                elif part is not None:
                    k = part.a[1] if len(part.a) > 1 else None
                    s.bad(f"{how} rows", f"{what}: column {n!r} holds {show(part, 2)[:80]} of the variable") if part.op != "item" or isinstance(k, Term) and k.op in ("slice", "c") else s.undecided(f"{what}: {show(part, 2)[:80]}")
            dc = W.attr(ch, "data_columns")
            if isinstance(dc, VList):
                s.check(list(dc.items) == want, "parameters are the selected variables", f"{how} parameters", f"{what}: parameters {dc.items}")
        return go

    for how in ("numpyro", "arviz"):
        sels = [Ellipsis, None, ()]
        for k in range(1, len(NAMES) + 1):
            for sub in combinations(NAMES, k):
                orders = list(permutations(sub)) if full or k <= 2 else [sub, sub[::-1]]
                for o in orders:
                    sels.append(o)
                    if k < len(NAMES):
                        sels.append(tuple("~" + x for x in o))
                if k >= 2:
                    for m in range(1, 2**k - 1) if full else (1, 2):
                        sels.append(tuple(("~" if m >> i & 1 else "") + x for i, x in enumerate(sub)))
        sels.append(("mu", "mu"))
        for names in (NAMES, NAMES[::-1]) if full else (NAMES, ("tau", "u", "mu_2", "mu")):
            for sel in dict.fromkeys(sels):
                ctx.queue(f"{how} {'/'.join(names)} {sel}", scen(how, names, sel), judge(how, names, sel))
    ctx.flush()

    # ------------------------------------------------------------------ emcee
    def escen(names, kw, sym):
        def go(W):
            m = emcee(W, names)
            k = {x: (W.opt("arg", x, kind="scalar") if sym else v) for x, v in kw.items()}
            W.kw = k
            W.mark()
            try:
                W.ch = W.I.call(W.I.getattr(W.cls("chain.Chain"), "from_emcee"), [m, VList(list(names)), "the name"], k)
            except PyExc as e:
                W.ch = e
        return go

    def ejudge(names, kw, sym):
        def go(run, s):
            W = run.W
            what = f"from_emcee of {list(names)} with {kw}"
            if run.exc is not None or isinstance(W.ch, PyExc):
                e = run.exc or W.ch
                if not e.implicit and run.base:
                    s.bad("emcee refused", f"{what}: {e.cname}: {message(e)[:100]}", e.where)
                else:
                    s.undecided(f"{what}: {e.cname} at {e.where}")
                return
            f = W.attr(W.ch, "samples")
            if not isinstance(f, VFrame):
                s.undecided(f"{what}: samples is {type(f).__name__}")
                return
            s.check([n for n in f.cols if n not in own_cols(W, W.ch)] == list(names), "columns are the given names in order", "emcee columns", f"{what}: columns {list(f.cols)}")
            s.check(W.attr(W.ch, "name") == "the name", "name passed", "emcee name", f"{what}: the chain is named {W.attr(W.ch, 'name')!r}")
            calls = W.asked
            if len(calls) != 1:
                s.undecided(f"{what}: {len(calls)} calls of get_chain")
                return
            c = calls[0]
            manual = any(isinstance(x, Term) and x.op == "slice" for v in f.cols.values() for x in subterms(to_term(v)))
            for k, d in (("thin", 1), ("discard", 0)):
                w = W.kw.get(k, d)
                g = c.get(k, d)
                s.ob("sampler call receives thinning and burn-in")
                if to_term(g) is not to_term(w):
                    if manual:
                        s.undecided(f"{what}: {k} applied by slicing")
                    else:
                        s.bad(f"emcee {k}", f"{what}: the sampler is asked for {k} = {show(to_term(g))} instead of {show(to_term(w))}")
            fl = c.get("flat", False)
            if fl is not True:
                s.undecided(f"{what}: walkers are merged outside the sampler")
            for n in [n for n in f.cols if n not in own_cols(W, W.ch)]:
                ls = {W.leaf[x] for x in leaves(to_term(f.cols[n])) if x in W.leaf}
                t, part = origin(to_term(f.cols[n]), W.leaf)
                s.ob("column value traced")
                if t is not None and part is None:
                    s.check(W.leaf[t] == n, "emcee values", "emcee values", f"{what}: column {n!r} holds the values of {W.leaf[t]!r}")
                elif ls and n not in ls:
                    s.bad("emcee values", f"{what}: column {n!r} holds values of {sorted(ls)}")
                else:
                    s.undecided(f"{what}: column {n!r} is {show(to_term(f.cols[n]), 3)[:80]}")
        return go

    for names in (("A",), ("B", "A"), ("C", "A", "B")):
        for kw in ({}, {"thin": 3}, {"discard": 7}, {"thin": 3, "discard": 7}, {"thin": 1, "discard": 0}):
            for sym in (False, True):
                if kw or not sym:
                    ctx.queue(f"emcee {names} {kw} {'symbols' if sym else 'numbers'}", escen(names, kw, sym), ejudge(names, kw, sym))
    ctx.flush()

    # ------------------------------------------------------------------ further options
    CH = {
        "color": "#123456", "linestyle": "--", "linewidth": 2.5, "cmap": "plasma", "num_free_params": 3, "num_eff_data_points": 12.5, "walkers": 4, "grid": True, "kde": 1.5, "smooth": 4, "show_label_in_legend": False,
        "plot_point": True, "marker_size": 33.0, "marker_style": "s", "marker_alpha": 0.3, "plot_contour": True, "plot_cloud": True, "shade": False, "shade_alpha": 0.4, "shade_gradient": 0.7, "bar_shade": False, "bins": 17, "sigmas": (0, 1),
        "summary_area": 0.5, "multimodal": True, "show_contour_labels": True, "power": 2.0, "zorder": 44, "histogram_relative_height": 0.5, "statistics": "MEAN", "shift_params": True,
    }

    def oscen(how, opts):
        def go(W):
            W.mark()
            names = ("A", "B")
            vals = {}
            for k in opts:
                v = CH[k]
                vals[k] = VList(list(v)) if isinstance(v, tuple) else S(W, v) if k == "statistics" else v
            W.vals = vals
            if how == "emcee":
                m = emcee(W, names)
                W.ch = W.I.call(W.I.getattr(W.cls("chain.Chain"), "from_emcee"), [m, VList(list(names)), "the name"], dict(vals))
            else:
                W.ch = convert(W, how, names, Ellipsis, dict(vals))
            t = W.table("sampler", cols=names, weight=False, posterior=False)
            W.direct = W.I.instantiate(W.cls("chain.Chain"), [], {"samples": t, "name": "the name", **vals})
        return go

    def ojudge(how, opts):
        def go(run, s):
            W = run.W
            what = f"from_{how} with {', '.join(opts)}"
            if run.exc is not None:
                e = run.exc
                if not e.implicit and run.base:
                    s.bad(f"{how} options refused", f"{what}: {e.cname}: {message(e)[:100]}", e.where)
                else:
                    s.undecided(f"{what}: {e.cname} at {e.where}")
                return
            for k in opts:
                a, b = W.attr(W.ch, k), W.attr(W.direct, k)
                s.ob("option reaches the chain")
                same = a is b or (type(a) is type(b) and not isinstance(a, (Inst, VList, VDict)) and a == b) or isinstance(a, VList) and isinstance(b, VList) and list(a.items) == list(b.items)
                if not same and isinstance(a, SV) and isinstance(b, SV):
                    same = a.term is b.term
                s.check(same, "option value", f"{how} option {k}", f"{what}: {k} is {a!r}"[:160] + f" where a chain built directly has {b!r}"[:120])
            extra = [k for k in W.direct.f if k != "samples" and k not in opts and k in W.ch.f]
            for k in extra:
                a, b = W.ch.f[k], W.direct.f[k]
                if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))):
                    s.check(a == b, "untouched option", f"{how} untouched {k}", f"{what}: {k} is {a!r} where a chain built directly has {b!r}")
        return go

    for how in ("numpyro", "arviz", "emcee"):
        ctx.queue(f"options {how} none", oscen(how, ()), ojudge(how, ()))
        for k in CH:
            ctx.queue(f"options {how} {k}", oscen(how, (k,)), ojudge(how, (k,)))
        rest = tuple(k for k in CH if k != "multimodal")
        ctx.queue(f"options {how} all", oscen(how, rest), ojudge(how, rest))
    ctx.flush()


RULES = {"C29": C29}
