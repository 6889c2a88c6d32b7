"""Missing values (C20)."""
from __future__ import annotations

from itertools import product

from common import *  # noqa: F403
from common import S, readonly_calls
from figs import DRAW
from rules_misc import _flat_str, message
from terms import Term, mk, num, show, subterms
from values import NOWIT, SV, Inst, Native, PyExc, VDict, VList, to_term

NUMERIC = {"start", "stop", "x", "a", "x1", "x2", "y", "obj", "array"}


def none_in(t):
    """arithmetic on the missing value inside a term"""
    if not isinstance(t, Term):
        return None
    for x in subterms(t):
        if not isinstance(x, Term):
            continue
        if x.op == "bin" and any(isnone(y) for y in x.a[1:]) or x.op == "un" and isnone(x.a[1]):
            return x
        if x.op == "call" and str(x.a[0]).startswith(("numpy.", "math.")) and any(k in NUMERIC and isnone(v) for k, v in x.a[1][:2]):
            return x
        if x.op == "cmp" and x.a[0] in ("<", "<=", ">", ">=") and (isnone(x.a[1]) or isnone(x.a[2])):
            return x
    return None


def isnone(t):
    return isinstance(t, Term) and t.op == "c" and t.a[0] is None


def nonetype(exc):
    m = message(exc)
    return "NoneType" in m or "None" in m and exc.implicit


def drawn_none(W, s, what):
    """no draw call receives a missing value as data, or something computed from one"""
    for e in W.events("ext"):
        if e.name not in DRAW:
            continue
        args = list(e.d.get("targs") or [])
        kw = e.d.get("tkw") or {}
        s.ob("draw call examined for missing values")
        data = args if e.name in ("fill_between", "fill_betweenx", "errorbar", "axvspan", "axhspan", "axvline", "axhline", "scatter", "contour", "contourf", "plot") else args[:1]
        for t in data + [kw[k] for k in ("x", "y", "x1", "x2", "y1", "y2", "weights") if k in kw and not (k == "weights")]:
            bad = None
            if isnone(t):
                bad = t
            elif isinstance(t, Term) and t.op == "list" and any(isnone(y) or isinstance(y, Term) and y.op == "list" and any(isnone(z) for z in y.a[0]) for y in t.a[0]):
                bad = t
            else:
                bad = none_in(t)
            if bad is not None:
                s.bad(f"drawn {e.name} {e.site[0] if e.site else ''}", f"{what}: {e.name} is given a missing value ({show(bad, 2)[:120]})", e.site)


def has_none_text(v):
    return "None" in str(_flat_str(to_term(v))) if isinstance(v, (SV, str)) else False


def C20(ctx):
    """Case analysis over what is absent: every public read-only call is interpreted for chains lacking the posterior, the number of free parameters, the number of data points or the weights
    (in each mixture over two chains), and every consumer of a parameter's bound for bounds with each subset of limits absent (the summary routine is replaced by a stub returning exactly
    that bound, so all its callers are reached with it). An operation on the missing value ends the interpretation in the exception Python would raise, or leaves the missing value inside the
    term of a drawn quantity; either is a violation at that statement. Limits that are zero rather than missing must be treated like any other limit."""
    full = ctx.tier == "thorough"

    # ------------------------------------------------------------------ (A) texts of bounds
    VALS = {"lower": (0.25, 0.0), "center": (1.5, 0.0), "upper": (2.0, 0.0)}

    def bound(W, lower=None, center=None, upper=None):
        kw = {k: v for k, v in (("lower", lower), ("center", center), ("upper", upper)) if v is not Ellipsis}
        return W.I.instantiate(W.cls("analysis.Bound"), [], kw)

    def texts(W):
        ana = W.I.instantiate(W.cls("analysis.Analysis"), [None], {})
        W.out = []
        W.mark()
        sub = list(product((False, True), repeat=3))

        def call(tag, b, want, **kw):
            try:
                r = W.call(ana, "get_parameter_text", b, **kw)
            except PyExc as e:
                r = e
            W.out.append((tag, want, r))

        for wrap in (False, True):
            for lab in (None, "", "q"):
                kw = {"wrap": wrap, **({} if lab is None else {"label": lab})}
                call(f"None wrap={wrap} label={lab}", None, False, **kw)
                call(f"[] wrap={wrap} label={lab}", VList([]), False, **kw)
                for has in sub:
                    for vals in ("sym", "plain", "zero"):
                        def val(i, nm):
                            if not has[i]:
                                return None
                            if vals == "sym":
                                return SV(mk("opt", "bound", nm), "scalar", nd=0)
                            if vals == "zero":
                                return {"lower": -1.0, "center": 0.0, "upper": 1.0}[nm] if sum(has) == 3 else 0.0
                            return VALS[nm][0]
                        b = bound(W, *(val(i, nm) for i, nm in enumerate(("lower", "center", "upper"))))
                        call(f"bound with {[n for n, h in zip(('lower', 'center', 'upper'), has) if h]} ({vals}) wrap={wrap} label={lab}", b, all(has), **kw)
                        call(f"list of one bound with {[n for n, h in zip(('lower', 'center', 'upper'), has) if h]} wrap={wrap} label={lab}", VList([b]), all(has), **kw)
                        call(f"two bounds, one with {[n for n, h in zip(('lower', 'center', 'upper'), has) if h]} ({vals}) wrap={wrap} label={lab}", VList([b, bound(W, 1.0, 1.5, 2.0)]), True, **kw)
                        call(f"two bounds with {[n for n, h in zip(('lower', 'center', 'upper'), has) if h]} wrap={wrap} label={lab}", VList([b, b]), all(has), **kw)
                for z in ((0.0, 0.5, 1.0), (-1.0, -0.5, 0.0), (-1.0, 0.0, 1.0), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0)):
                    call(f"bound {z} wrap={wrap} label={lab}", bound(W, *z), True, **kw)
        for has in sub:
            b = bound(W, *(VALS[nm][0] if h else None for nm, h in zip(("lower", "center", "upper"), has)))
            for at in ("array", "all_none"):
                try:
                    r = W.attr(b, at)
                except PyExc as e:
                    r = e
                W.out.append((f"{at} of a bound with {has}", (at, has), r))
        for k, z in (("lower", 0.0), ("center", 0.0), ("upper", 0.0)):
            b = bound(W, **{k: z})
            try:
                r = W.attr(b, "array")
            except PyExc as e:
                r = e
            W.out.append((f"array of a bound with only {k} = 0", ("array", tuple(q == k for q in VALS), 0.0), r))
            W.out.append((f"all_none of a bound with only {k} = 0", ("all_none", (True, False, False)), W.attr(b, "all_none")))

    def jtexts(run, s):
        W = run.W
        if run.exc is not None:
            s.undecided(f"{run.name}: {run.exc.cname} at {run.exc.where}")
            return
        for tag, want, r in W.out:
            s.ob("bound formatted")
            if isinstance(r, PyExc):
                if nonetype(r) or not r.implicit or r.cname == "IndexError" and tag.startswith("[]"):
                    s.bad(f"text crash {r.where}", f"formatting {tag} raises {r.cname}: {message(r)[:100]}", r.where)
                else:
                    s.undecided(f"formatting {tag}: {r.cname} at {r.where}")
                continue
            if isinstance(want, tuple):
                at, has = want[:2]
                if at == "all_none":
                    s.check(r == (not any(has)), "all_none", "all_none", f"{tag} is {r}")
                elif isinstance(r, SV):
                    t = r.term
                    els = None
                    while t.op == "call" and t.a[1]:
                        t = t.a[1][0][1]
                    if t.op == "list":
                        els = t.a[0]
                    if els is None or len(els) != 3:
                        s.undecided(f"{tag}: {show(r.term, 3)[:100]}")
                    else:
                        for h, nm, x in zip(has, ("lower", "center", "upper"), els):
                            n = num(x)
                            if isnone(x) or n is not None and h != (n == n):
                                s.bad("bound array", f"{tag}: the entry of {nm} is {show(x)}")
                            elif n is not None and h and n != (want[2] if len(want) > 2 else VALS[nm][0]):
                                s.bad("bound array", f"{tag}: the entry of {nm} is {show(x)}")
                else:
                    s.undecided(f"{tag}: {type(r).__name__}")
                continue
            if r is None:
                s.bad("text is not a string", f"formatting {tag} gives None")
                continue
            empty = r == ""
            if not isinstance(r, (str, SV)):
                s.undecided(f"{tag}: {type(r).__name__}")
                continue
            if isinstance(r, SV) and r.term.op == "c":
                empty = r.term.a[0] == ""
            if want and empty and not run.base:
                continue  # an arbitrary valuation of conditions on the text itself
            s.check(empty == (not want), "text empty exactly when nothing is constrained", "text of a missing limit" if not want else "text of a present limit", f"formatting {tag} gives {show(to_term(r), 2)[:100] if not empty else 'an empty text'}")
            if has_none_text(r):
                s.bad("text mentions None", f"formatting {tag} gives {show(to_term(r), 2)[:120]}")

    ctx.explore("texts of bounds", texts, jtexts, depth=1)

    # ------------------------------------------------------------------ (B) chains lacking optional information
    LACK = {"posterior": {"posterior": False}, "free": {"num_free_params": None}, "data": {"num_eff_data_points": None}, "weight": {"weight": False}, "nothing": {}}
    COMB = [("posterior", "nothing"), ("nothing", "posterior"), ("posterior", "posterior"), ("free", "nothing"), ("nothing", "data"), ("free", "data"), ("data", "free"), ("posterior", "free"), ("weight", "posterior")]
    ALL = ("posterior", "free", "data", "weight")
    calls = readonly_calls()
    extra = [
        ("plotter.plot[points]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot"), {"plot_point": True}),
        ("plotter.plot_distributions[points]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_distributions"), {"plot_point": True}),
        ("plotter.plot_walks[all]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_walks", plot_posterior=True, plot_weights=True), {}),
        ("comparison.table[all]", lambda W, cc, ch: W.call(W.attr(cc, "comparison"), "comparison_table", aic=True, bic=True, dic=True), {}),
        ("chain2.max posterior point", lambda W, cc, ch: W.call(ch[1], "get_max_posterior_point"), {}),
        ("chain1 properties", lambda W, cc, ch: VList([W.attr(ch[0], p) for p in ("max_posterior_row", "log_posterior", "weights", "color_data", "data_samples", "data_columns", "skip", "smooth_value")]), {}),
        ("analysis.get_latex_table[transposed]", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_latex_table", transpose=True), {}),
        ("plotter.plot[second a point]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot"), ({}, {"plot_contour": False, "plot_point": True})),
        ("plotter.plot[points only]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot", columns=VList(["A", "B"])), ({"plot_contour": False, "plot_point": True}, {"plot_contour": False, "plot_point": True, "plot_cloud": True})),
        ("plotter.plot_distributions[second a point]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_distributions"), ({}, {"plot_contour": False, "plot_point": True})),
        ("plotter.plot[coloured cloud]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot"), ({"plot_cloud": True, "color_param": "B"}, {"plot_cloud": True})),
        ("plotter.plot[cloud]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot"), {"plot_cloud": True}),
    ]
    runs = [(n, f, {}) for n, f in calls] + extra
    combos = [tuple({a} for a in c) for c in COMB] + [(set(ALL), set(ALL)), (set(ALL), set()), (set(), set(ALL)), ({"posterior", "free"}, {"data"})]

    def build(W, lack, o):
        chs = []
        for i, l in enumerate(lack):
            kw = {"walkers": 2, "num_free_params": 2 + i, "num_eff_data_points": 30.0, **(o[i] if isinstance(o, tuple) else o)}
            tk = {}
            for x in l:
                for k, v in LACK[x].items():
                    (tk if k in ("posterior", "weight") else kw)[k] = v
            kw = {k: v for k, v in kw.items()}
            chs.append(W.chain(f"X{i + 1}", **tk, **kw))
        W.chs = chs
        return W.consumer(*chs, truths=[W.truth({"A": 1.0}, name="T1")])

    def scen(fn, lack, o):
        def go(W):
            cc = build(W, lack, o)
            W.cc = cc
            W.mark()
            W.ret = fn(W, cc, W.chs)
        return go

    def judge(name, lack):
        def go(run, s):
            W = run.W
            d = f"{name} with " + ", ".join(f"X{i + 1} lacking {'/'.join(sorted(l - {'nothing'})) or 'nothing'}" for i, l in enumerate(lack))
            s.ob("call with information absent")
            if run.exc is not None:
                e = run.exc
                if nonetype(e):
                    s.bad(f"crash {e.where}", f"{d}: {e.cname}: {message(e)[:120]}", e.where)
                elif not e.implicit and "Gelman" not in message(e) and run.base:
                    s.bad(f"refused {e.where}", f"{d} is refused: {e.cname}: {message(e)[:120]}", e.where)
                else:
                    s.undecided(f"{run.name}: {e.cname} at {e.where}")
                return
            drawn_none(W, s, d)
            if name in ("comparison.aic", "comparison.bic", "comparison.dic") and isinstance(W.ret, VDict):
                need = {"aic": {"posterior", "free", "data"}, "bic": {"posterior", "free", "data"}, "dic": {"posterior"}}[name.split(".")[1]]
                for i, l in enumerate(lack):
                    nm = f"X{i + 1}"
                    v = W.ret.get(nm) if nm in W.ret.keys() else None
                    if l & need:
                        s.check(v is None, "missing entry omitted", f"{name} entry", f"{d}: the result has a value for {nm}")
                    else:
                        s.check(v is not None, "present entry kept", f"{name} lost entry", f"{d}: the result has no value for {nm}")
                    if isinstance(v, SV) and none_in(v.term) is not None:
                        s.bad(f"{name} computed", f"{d}: the value of {nm} is computed from a missing value")
            if name == "analysis.get_max_posteriors" and isinstance(W.ret, VDict):
                for i, l in enumerate(lack):
                    nm = f"X{i + 1}"
                    v = W.ret.get(nm) if nm in W.ret.keys() else None
                    s.check((nm not in W.ret.keys()) == ("posterior" in l) and (v is not None or "posterior" in l), "maximum posterior entry", "maximum posterior entry", f"{d}: the entry of {nm} is {v if nm in W.ret.keys() else 'absent'}")
        return go

    for name, fn, o in runs:
        for lack in combos:
            if not full and len(lack[0]) + len(lack[1]) > 2 and (set(ALL) not in lack or "table" in name and "latex" in name):
                continue
            ctx.queue(f"{name} {'+'.join(sorted(lack[0])) or 'nothing'}|{'+'.join(sorted(lack[1])) or 'nothing'}", scen(fn, lack, o), judge(name, lack))
    ctx.flush()
    both = (set(ALL), set(ALL))
    for name, fn, o in runs:
        if name == "chain.divide":
            continue
        if not name.startswith(("plotter", "analysis.get_param", "diagnostic", "analysis.get_summary")) or full:
            ctx.explore(f"{name} flips", scen(fn, both, o), judge(name, both), depth=1, limit=None if full else 40)

    # ------------------------------------------------------------------ (C) every consumer of a bound
    lim = {"lower": 0.25, "center": 0.5, "upper": 0.75}

    def shapes(W):
        f = lambda n: SV(mk("opt", "bound", n), "scalar", nd=0)  # noqa: E731
        return {
            "None": (None, False), "no limit": (bound(W, None, f("center"), None), False), "nothing": (bound(W), False), "lower only": (bound(W, f("lower"), f("center"), None), False),
            "upper only": (bound(W, None, f("center"), f("upper")), False), "full": (bound(W, f("lower"), f("center"), f("upper")), True), "zero lower": (bound(W, 0.0, 0.5, 1.0), True),
            "zero upper": (bound(W, -1.0, -0.5, 0.0), True), "zero centre": (bound(W, -1.0, 0.0, 1.0), True),
        }

    def plotdist(W, cc, ch, **kw):
        ax = ExtObj("axes", "panel")
        W.I.call(W.I.load("chainconsumer.plotting.contours").ns["plot_dist"], [ax, ch[0], "A"], {"config": W.config(), **kw})

    consumers = [
        ("plot", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot"), {"shade": True, "bar_shade": True}, {}),
        ("plot of one chain", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot", chains=VList([ch[0]])), {"bar_shade": True}, {}),
        ("plot flipped", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot", chains=VList([ch[0]])), {"bar_shade": True}, {"flip": True}),
        ("plot_distributions", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_distributions"), {"bar_shade": True}, {}),
        ("plot_distributions of one chain", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_distributions", chains=VList([ch[0]])), {"bar_shade": True}, {}),
        ("plot_distributions smoothed", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_distributions", chains=VList([ch[0]])), {"bar_shade": True, "smooth": 0}, {}),
        ("plot_summary", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_summary"), {"bar_shade": True}, {}),
        ("plot_summary errorbar", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_summary", errorbar=True), {}, {}),
        ("get_summary", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_summary"), {}, {}),
        ("get_latex_table", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_latex_table"), {}, {}),
        ("get_latex_table transposed", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_latex_table", transpose=True), {}, {}),
        ("plot_dist", lambda W, cc, ch: plotdist(W, cc, ch), {"shade": True}, {}),
        ("plot_dist summary", lambda W, cc, ch: plotdist(W, cc, ch, summary=True), {"shade": True}, {}),
    ]

    def cscen(fn, o, cfg, shape):
        def go(W):
            chs = [W.chain(f"X{i + 1}", walkers=2, **o) for i in range(2)]
            cc = W.consumer(*chs, config=W.config(**cfg))
            W.mark()
            W.cut = len(W.I.events)
            val, W.full = shapes(W)[shape]
            stub = lambda a, kw: val  # noqa: E731
            for k in [W.cls("analysis.Analysis")]:
                k.ns["get_parameter_summary"] = Native("get_parameter_summary", stub)
            W.ret = fn(W, cc, chs)
        return go

    def cjudge(name, shape):
        def go(run, s):
            W = run.W
            d = f"{name} where a summary is {'missing' if shape == 'None' else 'a bound with ' + shape}"
            s.ob("bound consumer")
            if run.exc is not None:
                e = run.exc
                if nonetype(e):
                    s.bad(f"bound {name} {e.where}", f"{d}: {e.cname}: {message(e)[:120]}", e.where)
                elif not e.implicit:
                    s.bad(f"bound refused {name}", f"{d}: {e.cname}: {message(e)[:120]}", e.where)
                else:
                    s.undecided(f"{run.name}: {e.cname} at {e.where}")
                return
            drawn_none(W, s, d)
            evs = W.events("ext")
            shade = [e for e in evs if e.name in ("fill_between", "fill_betweenx")]
            curves = [e for e in evs if e.name in ("plot", "hist", "stairs", "step") and (e.d.get("targs") or e.d.get("tkw"))]
            if name not in ("plot_summary errorbar",) and not name.startswith("get_"):
                s.check(bool(curves), "curve drawn", f"curve lost {name}", f"{d}: no curve is drawn")
                if W.full:
                    s.check(bool(shade), "constrained curve shaded", f"shade lost {name}", f"{d} ({shape}): nothing is shaded")
                else:
                    s.check(not shade, "unconstrained curve unshaded", f"shaded {name}", f"{d}: the curve is shaded", shade[0].site if shade else None)
            if name == "plot_summary errorbar":
                bars = [e for e in evs if e.name == "errorbar"]
                s.check(bool(bars) == W.full, "error bar only for a constrained parameter", f"errorbar {'lost' if W.full else 'drawn'}", f"{d}: {len(bars)} error bars are drawn", bars[0].site if bars else None)
            if name.startswith("get_latex"):
                from tables import Table
                T = Table(W.ret)
                if not T.ok:
                    s.undecided(f"{d}: table not read")
                else:
                    for r in T.rows[1:]:
                        for cell in r[1:]:
                            blank = not T.of(cell) and not any(ch.isdigit() for ch in cell)
                            s.check(blank == (not W.full), "cell empty exactly when unconstrained", f"table cell {'lost' if W.full else 'filled'}", f"{d}: the cell reads {T.plain(cell)[:60]!r}")
                            if "None" in T.plain(cell):
                                s.bad("table cell None", f"{d}: the cell reads {T.plain(cell)[:60]!r}")
            if shape in ("None", "no limit", "lower only", "upper only"):
                for e in evs:
                    if e.name in ("set_title", "text", "annotate") and any(has_none_text(a) for a in (e.d.get("args") or []) if isinstance(a, (SV, str))):
                        s.bad(f"text None {name}", f"{d}: the text drawn contains None", e.site)
        return go

    for name, fn, o, cfg in consumers:
        for shape in ("None", "no limit", "nothing", "lower only", "upper only", "full", "zero lower", "zero upper", "zero centre"):
            ctx.queue(f"{name} {shape}", cscen(fn, o, cfg, shape), cjudge(name, shape))
    ctx.flush()
    for name, fn, o, cfg in consumers:
        for shape in ("None", "no limit", "lower only", "upper only") if full else ("no limit",):
            if full or not name.startswith("plot of"):
                ctx.explore(f"{name} {shape} flips", cscen(fn, o, cfg, shape), cjudge(name, shape), depth=1, limit=None if full else 30)


RULES = {"C20": C20}
