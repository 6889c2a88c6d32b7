"""Selections restrict, and chains do not influence each other (C38)."""
from __future__ import annotations

from common import *  # noqa: F403
from rules_plot import PLOTS, crashed, figure, panels, scene
from rules_state import canon, diff, signature
from scen import World
from terms import Term, leaves
from values import VDict, VList, to_term


def drawings(p):
    """what is drawn in a panel, in comparable form"""
    return [((a.name, tuple(sorted((str(k), t.id if isinstance(t, Term) else repr(t)) for k, t in a.args.items()))), a) for a in p.artists]


def lim(a):
    return tuple(to_term(x).id if not isinstance(x, Term) else x.id for x in a.lim)


def C38(ctx):
    """Relational comparison of def-use terms: (a) a plot or table of selected chains against the same call on a consumer that holds only those chains,
    for selections by name, by object and mixed; (b) the panels of a figure of selected parameters against the panels standing for the same parameters in the figure of
    all of them; (c) entries of results for selected chains or parameters against the entries of the full result; (d) entries of a chain's
    results with and without other chains registered."""

    def judge(run, s):
        W = run.W
        for tag, a, b in getattr(W, "pairs", []):
            s.ob("results compared")
            d = diff(a, b)
            if d is not None:
                s.bad(f"{tag}:{run.name.split('/')[0]}", f"{run.name}: {tag}: {d[0]} differs", d[1] or run.name)
        for tag, who, a, b in getattr(W, "entries", []):
            s.ob("entries compared")
            if a != b:
                s.bad(f"{tag}:{run.name.split('/')[0]}", f"{run.name}: {tag}: the entry of {who} differs", run.name.split("/")[0])

    # ---------------------------------------------------------------- (a) chains selected == only those registered
    O = ({"smooth": 0, "plot_cloud": True}, {"kde": 1.2, "plot_point": True, "bar_shade": True, "statistics": "MEAN"}, {"statistics": "HDI", "plot_cloud": True, "color_param": "K"})

    def opts(W):
        return [{k: (S(W, v) if k == "statistics" else v) for k, v in o.items()} for o in O]

    def chosen(W, m, sel, kw, cfg, columns):
        cols = (("A", "B"), ("B", "D", "A"), ("A", "D"))
        tr = ({"A": 1, "B": 1}, {"A": 1, "marker": 1, "D": 1})

        def one(X, **more):
            return signature(X, lambda: scene(X, m, cols=cols, opts=opts(X), truths=tr, kw=dict(kw), cfg=dict(cfg), columns=columns, **more))

        a = one(W, select=sel)
        W2 = World(policy=W.I.policy)
        b = one(W2, register=sel)
        W.pairs = [("selected chains versus a consumer holding only them", a, b)]

    for m in PLOTS:
        for sel in ((1,), (0, 2), (2, 0), (2, 1, 0)):
            for kw in ({},) if m != "plot_summary" else ({}, {"errorbar": True}):
                for cfg, columns in (({}, None), ({"log_scales": ("B",), "blind": ["D"]}, None), ({}, ("A", "D"))):
                    nm = f"{m}/chains {sel} {kw or ''} {cfg or ''}{f' parameters {columns}' if columns else ''}"
                    ctx.queue(nm, lambda W, m=m, sel=sel, kw=kw, cfg=cfg, c=columns: chosen(W, m, sel, kw, cfg, c), judge)

    # ---------------------------------------------------------------- the same for tables, best points and convergence
    def consumer(X, which, modes=False):
        cols = (("A", "B"), ("B", "D", "A"), ("A", "D"))
        ch = []
        for i, cs in enumerate(cols):
            o = {"multimodal": True, "statistics": S(X, "HDI")} if modes else opts(X)[i]
            ch.append(X.chain(f"chain {'zyx'[i]}", label=f"X{i + 1}", cols=cs, extra=("K",) if "color_param" in o else (), walkers=2 + i, num_free_params=2, num_eff_data_points=30.0, **o))
        return X.consumer(*[ch[i] for i in which], config=X.config(labels=VDict([("A", "lab_A"), ("D", "lab_D")]))), ch

    CALLS = [
        ("table", "get_latex_table", "analysis", {}),
        ("transposed table", "get_latex_table", "analysis", {"transpose": True}),
        ("table of columns", "get_latex_table", "analysis", {"columns": ("D", "A")}),
        ("summary", "get_summary", "analysis", {}),
        ("summary of columns", "get_summary", "analysis", {"columns": ("D", "A")}),
        ("best points", "get_max_posteriors", "analysis", {}),
        ("gelman_rubin", "gelman_rubin", "diagnostic", {}),
        ("geweke", "geweke", "diagnostic", {}),
    ]

    def kwargs(kw):
        return {k: VList(list(v)) if isinstance(v, tuple) else v for k, v in kw.items()}

    def reported(W, meth, owner, kw, sel, form):
        cc, ch = consumer(W, (0, 1, 2))
        names = [W.attr(ch[i], "name") for i in sel]
        how = {"objects": VList([ch[i] for i in sel]), "names": VList(names), "mixed": VList([n if k % 2 else ch[i] for k, (i, n) in enumerate(zip(sel, names))]),
               "dict": VDict([(n, ch[i]) for i, n in zip(sel, names)])}[form]
        W.mark()
        a = signature(W, lambda: W.call(W.attr(cc, owner), meth, chains=how, **kwargs(kw)))
        W2 = World(policy=W.I.policy)
        c2, _ = consumer(W2, sel)
        W2.mark()
        W.pairs = [("selected chains versus a consumer holding only them", a, signature(W2, lambda: W2.call(W2.attr(c2, owner), meth, **kwargs(kw))))]

    for nm, meth, owner, kw in CALLS:
        forms = {"get_latex_table": ("objects", "names", "mixed"), "get_summary": ("objects",), "get_max_posteriors": ("names", "dict"), "gelman_rubin": ("objects", "names", "mixed"), "geweke": ("objects", "names", "mixed")}[meth]
        for sel in ((1,), (2, 0), (0, 2), (2, 1, 0)):
            for form in forms:
                ctx.queue(f"{nm}/chains {sel} as {form}", lambda W, m=meth, o=owner, kw=kw, sel=sel, form=form: reported(W, m, o, kw, sel, form), judge)

    # ---------------------------------------------------------------- (b) panels of selected parameters
    def panelset(W):
        out = {}
        for k, p, w in panels(W):
            if w.kind != "empty" and w.kind != "name":
                out[(w.kind, w.x, w.y, w.data, tuple(w.chains or ()))] = (p, drawings(p))
        return out

    def subset(W, m, columns, kw, cfg, o, cols):
        tr = ({"A": 1, "B": 1, "D": 1}, {"A": 1, "marker": 1, "D": 1, "B": 1})

        def one(X, **more):
            oo = [{k: (S(X, v) if k == "statistics" else v) for k, v in q.items()} for q in o]
            scene(X, m, cols=cols, opts=oo, truths=tr, kw=dict(kw), cfg=dict(cfg), **more)

        one(W, columns=columns)
        W2 = World(policy=W.I.policy)
        one(W2)
        W.sub = (panelset(W), panelset(W2))

    def sjudge(run, s):
        if crashed(run, s) or not hasattr(run.W, "sub"):
            return
        W = run.W
        few, every = W.sub
        for key, (p, ds) in few.items():
            kind, x, y, data, ch = key
            if key not in every:
                continue
            other = every[key][1]
            s.ob("panels compared")
            for n, u, v in (("x", p.x, every[key][0].x), ("y", p.y, every[key][0].y)):
                if u.lim is not None and v.lim is not None and (x if n == "x" else y) in ("A", "B", "D", "E"):
                    s.ob("axis ranges compared")
                    if lim(u) != lim(v):
                        s.bad(f"limits:{W.method}:{kind}:{n}", f"{run.name}: the {n} axis of the panel of {x}, {y} has another range than in the figure of all parameters", u.limsite)
            a, b = sorted(d[0] for d in ds), sorted(d[0] for d in other)
            if a != b:
                odd = [d for d in ds if d[0] not in b] or [d for d in other if d[0] not in a] or ds or other
                s.bad(f"panel:{W.method}:{kind}:{odd[0][1].name}", f"{run.name}: the panel of {x}, {y}: {odd[0][1].name} differs from the one in the figure of all parameters", odd[0][1].site, stack=stack_txt(odd[0][1]))

    P3 = (("A", "B", "D"), ("B", "D", "A"))
    P5 = (("A", "B", "D", "E"), ("E", "D", "A"))
    for m in PLOTS:
        for columns in (("A", "D"), ("B", "D"), ("B",)) if m != "plot" else (("A", "D"), ("A", "B"), ("B", "D")):
            for on, o in (("", ({}, {})), ("cloud point kde", ({"plot_cloud": True, "plot_point": True}, {"kde": 1.2})), ("hdi grid", ({"statistics": "HDI", "smooth": 0}, {"grid": True}))):
                for cfg in ({}, {"log_scales": ("B", "D")}, {"summarise": False, "sigma2d": True}):
                    ctx.queue(f"{m} parameters/{columns} {on} {cfg or ''}", lambda W, m=m, c=columns, o=o, cfg=cfg: subset(W, m, c, {}, cfg, o, P3), sjudge)
        ctx.queue(f"{m} parameters/of chains lacking some", lambda W, m=m: subset(W, m, ("B", "D", "E"), {}, {}, ({}, {}), P5), sjudge)
    ctx.queue("plot_summary parameters/error bars", lambda W: subset(W, "plot_summary", ("A", "D"), {"errorbar": True}, {}, ({}, {}), P3), sjudge)
    ctx.queue("plot_walks parameters/convolved", lambda W: subset(W, "plot_walks", ("B", "D"), {"convolve": 10}, {}, ({}, {}), P3), sjudge)

    # ---------------------------------------------------------------- (c, d) entries of results
    def kind(t):
        return tuple(kind(x) for x in t) if isinstance(t, tuple) else t if isinstance(t, str) or t is None else "value"

    def entries(W, meth, owner, modes=False, only=None):
        """only: the one chain whose data decide a flipped condition the other way"""
        cc, ch = consumer(W, (0, 1, 2), modes)
        if only is not None:
            W.I.flip_only = lambda t: any(x.op == "col" and x.a[0] == only for x in leaves(t))
        an = W.attr(cc, owner)
        W.mark()
        W.entries = []
        # the modes of an interval search are numbered afresh at each call: there the kind of each entry and its number of modes are compared
        form = (lambda t: kind(t)) if modes else (lambda t: t)

        def look(r, who, c=None):
            r = dict(r.items()) if isinstance(r, VDict) else {}
            v = r.get(who)
            if c is None:
                return tuple(sorted((str(k), canon(x)) for k, x in v.items())) if isinstance(v, VDict) else canon(v)
            return canon(dict(v.items()).get(c)) if isinstance(v, VDict) else None

        full = W.call(an, meth)
        for i, x in enumerate(ch):
            n = W.attr(x, "name")
            alone, _ = consumer(W, (i,), modes)
            W.entries.append(("alone versus among others", n, form(look(W.call(W.attr(alone, owner), meth), n)), form(look(full, n))))
            if meth == "get_summary":
                for c in ("A", "B", "D"):
                    for cs in ((c,), ("D", c) if c != "D" else ("A", "D")):
                        if c in W.I.iterate(W.attr(x, "data_columns")):
                            W.entries.append(("selected parameters versus all", f"{n}, {c}", form(look(W.call(an, meth, columns=VList(list(cs))), n, c)), form(look(full, n, c))))

    for meth, owner in (("get_summary", "analysis"), ("get_max_posteriors", "analysis")):
        ctx.queue(f"{meth}/entries", lambda W, m=meth, o=owner: entries(W, m, o), judge)
    ctx.flush()
    ctx.explore("get_summary/entries of chains with several modes", lambda W: entries(W, "get_summary", "analysis", True), judge, depth=1 if ctx.tier == "quick" else 2, limit=80)
    for only in ("X1", "X2", "X3"):
        ctx.explore(f"get_summary/entries when the data of {only} alone differ", lambda W, o=only: entries(W, "get_summary", "analysis", True, o), judge, depth=1 if ctx.tier == "quick" else 2, limit=80)
        ctx.explore(f"get_summary/entries of one mode when the data of {only} alone differ", lambda W, o=only: entries(W, "get_summary", "analysis", False, o), judge, depth=1 if ctx.tier == "quick" else 2, limit=80)
    ctx.explore("get_max_posteriors/entries over conditions", lambda W: entries(W, "get_max_posteriors", "analysis"), judge, depth=1, limit=40)
    if ctx.tier == "thorough":
        for m in PLOTS:
            for columns in (None, ("A", "D")):
                ctx.explore(f"{m}/chosen chains over conditions, parameters {columns}", lambda W, m=m, c=columns: chosen(W, m, (2, 1), {}, {}, c), judge, depth=1, limit=400)
                ctx.explore(f"{m} parameters/over conditions, {columns}", lambda W, m=m: subset(W, m, ("A", "D"), {}, {}, ({"plot_cloud": True}, {"kde": 1.2}), P3), sjudge, depth=1, limit=400)


RULES = {"C38": C38}
