"""Rules about figures: blinding (C06), axes (C07), truths (C08), labels (C09), saving (C24), identity of what is drawn (C27)."""
from __future__ import annotations

from fractions import Fraction as Fr

from calc import short
from common import *  # noqa: F403
from common import S, stack_txt
from figs import Figure, Params, cv
from rules_stats import PLOTS, free_plots
from tables import Table
from terms import Term, callarg, leaves, mk, num, show, subterms
from values import *  # noqa: F403
from values import Inst, VDict, VList

ALLP = ("A", "B", "D", "E", "F", "K")
LOC = "location of "
WCOL = ("weight", "log_posterior")
STYLE = {"color": "#1111{}1", "linestyle": "-", "linewidth": 1.5, "marker_style": "o", "marker_size": 20.0, "marker_alpha": 0.7, "zorder": 12, "shade_alpha": 0.4, "cmap": "viridis"}


class Want:
    """what a panel stands for: parameter, 'density', 'step' or None (nothing) along each axis"""

    def __init__(self, x, y, kind, chains=None, data=None):
        self.x, self.y, self.kind, self.chains, self.data = x, y, kind, chains, data

    def axis(self, k):
        return self.x if k == "x" else self.y


def layout(W, fig):
    """documented meaning of every panel: {(row, col): Want}"""
    cols, m = W.columns, W.method
    n = len(cols)
    out = {}
    if m == "plot":
        if W.plot_hists:
            flip = W.flip and n == 2
            for i in range(n):
                for j in range(n):
                    if j > i:
                        out[i, j] = Want(None, None, "empty")
                    elif i == j:
                        out[i, j] = Want("density", cols[i], "hist") if flip and i == n - 1 else Want(cols[i], "density", "hist")
                    else:
                        out[i, j] = Want(cols[j], cols[i], "joint")
        else:
            for i in range(n - 1):
                for j in range(n - 1):
                    out[i, j] = Want(cols[j], cols[i + 1], "joint") if j <= i else Want(None, None, "empty")
    elif m == "plot_distributions":
        nc = fig.shape[1]
        for k in range(fig.shape[0] * nc):
            out[divmod(k, nc)] = Want(cols[k], "density", "hist") if k < n else Want(None, None, "empty")
    elif m == "plot_summary":
        for i, ch in enumerate(W.shown):
            out[i, 0] = Want(None, None, "name", [ch])
            for j, p in enumerate(cols):
                out[i, j + 1] = Want(p, "density", "summary", [ch])
    elif m == "plot_walks":
        extra = []
        if W.kw.get("plot_posterior", True):
            extra.append("log_posterior")
        if W.kw.get("plot_weights", True):
            extra.append("weight")
        for i, d in enumerate(extra):
            out[i, 0] = Want("step", "data", "walk", data=d)
        for i, p in enumerate(cols):
            out[i + len(extra), 0] = Want("step", p, "walk")
    return out


def styles(W, lab, i):
    o = {}
    for k, v in STYLE.items():
        if isinstance(v, str):
            v = v.format(i)
        o[k] = W.opt(lab, k, v)
    return o


def scene(W, method, cols=(("A", "B"), ("A", "B")), columns=None, cfg=None, opts=(), truths=(), select=None, labels=("A", "B", "K"), style=True, kw=None, ext=(), filename=None, override=None, names=None, register=None):
    """build chains with known, distinct styles and call one plotting method"""
    chains = []
    for i, cs in enumerate(cols):
        lab = f"X{i + 1}"
        o = {"walkers": 2}
        if style:
            o.update(styles(W, lab, i))
        if i < len(opts):
            o.update(opts[i] or {})
        o = {k: v for k, v in o.items() if v is not Ellipsis}
        extra = ("K",) if o.get("color_param") == "K" else ()
        chains.append(W.chain(names[i] if names else f"chain {'zyxw'[i]}", label=lab, cols=cs, extra=extra, **o))
    ts = []
    for i, loc in enumerate(truths):
        marker = "marker" in loc
        ps = [p for p in loc if p != "marker"]
        T = f"T{i + 1}"
        z = getattr(W, "truth_wit", {})
        o = {k: W.opt(T, k, z.get(k, w)) for k, w in (("color", f"#22{i}222"), ("line_width", 2.0 + i), ("line_style", ":"), ("alpha", 0.5 + 0.1 * i), ("zorder", 90 + i))}
        if marker:
            o.update({k: W.opt(T, k, z.get(k, w)) for k, w in (("marker", "*"), ("marker_size", 33.0), ("marker_edge_width", 1.0), ("edge_color", f"#33{i}333"))})
        t = W.truth({p: W.opt(LOC + T, p, kind="scalar") for p in ps}, name=T, **o)
        ts.append(t)
    c = {"labels": VDict([(p, W.opt("label", p, getattr(W, "label_wit", {}).get(p, f"lab_{p}"))) for p in labels])}
    c.update(cfg or {})
    if ext:
        c["extents"] = VDict([(p, (W.opt("extent lo", p, kind="scalar"), W.opt("extent hi", p, kind="scalar"))) for p in ext])
    for k in ("blind", "log_scales"):
        if isinstance(c.get(k), (list, tuple)):
            c[k] = VList(list(c[k]))
    W.cfg = c
    W.plot_hists = c.get("plot_hists", True)
    W.flip = c.get("flip", False)
    b = c.get("blind", False)
    W.log_scales = set(c["log_scales"].items) if "log_scales" in c else set()
    reg = chains if register is None else [chains[i] for i in register]
    cc = W.consumer(*reg, config=W.config(**c), truths=ts, override=W.I.instantiate(W.cls("chain.ChainConfig"), [], override) if override else None)
    W.cc, W.all, W.truth_specs, W.truths = cc, chains, truths, ts
    sel = reg if select is None else [chains[i] for i in select]
    W.selected = sel
    allcols = []
    for ch in sel:
        i = chains.index(ch)
        o = (opts[i] if i < len(opts) else None) or {}
        ps = list(cols[i]) + (["K"] if o.get("color_param") == "K" else [])
        for p in ps:
            if p not in allcols and not (o.get("plot_cloud") and o.get("color_param") == p):
                allcols.append(p)
    W.columns = list(columns) if columns else allcols
    W.blind = set(W.columns) | {"K"} if b is True else set(b.items) if isinstance(b, VList) else set()
    W.cols_of = {f"X{i + 1}": set(cs) for i, cs in enumerate(cols)}
    W.names = {f"X{i + 1}": W.attr(ch, "name") for i, ch in enumerate(chains)}
    W.opts_of = {f"X{i + 1}": (opts[i] if i < len(opts) and opts[i] else {}) for i in range(len(cols))}
    W.shown = [ch.label for ch in sel]
    W.method, W.kw, W.filename = method, dict(kw or {}), filename
    k = dict(W.kw)
    if select is not None:
        k["chains"] = VList([W.names[ch.label] if i % 2 == 0 else ch for i, ch in enumerate(sel)])
    if columns is not None:
        k["columns"] = VList(list(columns))
    if filename is not None:
        k["filename"] = filename
    W.mark()
    W.ret = W.call(W.attr(cc, "plotter"), method, **k)


def figure(W):
    if not hasattr(W, "_fig"):
        W._fig = Figure(W)
        W._lay = layout(W, W._fig) if W._fig.grid else {}
        W._par = Params(W, ALLP, {"extent lo", "extent hi"} | {LOC + f"T{i + 1}" for i in range(4)})
    return W._fig, W._lay, W._par


def crashed(run, s):
    if run.exc is not None:
        s.undecided(f"{run.name}: ends in {run.exc.cname}")
        return True
    return False


def panels(W):
    fig, lay, par = figure(W)
    for k, w in lay.items():
        p = fig.grid.get(k)
        if p is not None:
            yield k, p, w


def labels_of(W, t):
    """chain labels and truth names a value comes from"""
    out = set()
    for x in leaves(t):
        if x.op == "col" and x.a[0] in W.cols_of:
            out.add(x.a[0])
        elif x.op == "opt" and (x.a[0] in W.cols_of):
            out.add(x.a[0])
        elif x.op == "nrows" and x.a[0] in W.cols_of:
            out.add(x.a[0])
    return out


def truths_of(t):
    out = set()
    for x in leaves(t):
        if x.op == "opt" and isinstance(x.a[0], str):
            if x.a[0].startswith(LOC):
                out.add(x.a[0][len(LOC):])
            elif x.a[0][:1] == "T" and x.a[0][1:].isdigit():
                out.add(x.a[0])
    return out


def fnof(e):
    return e.site[1] if isinstance(e.site, tuple) else str(e.site)


# ---------------------------------------------------------------------------------------------- C06
def C06(ctx):
    """Typestate of the tick labels of every axis and colour bar, followed through the drawing calls in order (setting a scale brings the labels back, empty tick lists, null
    locators or formatters and hidden labels remove them; a logarithmic axis also labels its minor ticks): in the final state no axis standing for a blinded parameter shows numbers. No
    text placed on a figure depends on the samples of a blinded parameter, and the parameter table has no entry for one."""

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        fig, lay, par = figure(W)
        for k, p, w in panels(W):
            for a in "xy":
                q = w.axis(a)
                if q not in W.blind or not p.visible:
                    continue
                st = p.axis(a)
                sh = st.shows
                s.ob("axes of blinded parameters")
                if sh == "major":
                    s.bad(f"ticks:{W.method}:{a}", f"{run.name}: panel {k}: the {a} axis shows the blinded parameter {q} with tick labels", st.scaled or "plotter")
                elif sh == "minor":
                    s.bad(f"minor:{W.method}:{a}", f"{run.name}: panel {k}: the logarithmic {a} axis shows the blinded parameter {q} with minor tick labels", st.scaled or "plotter")
        for cb in fig.cbars:
            m = cb["obj"].meta.get("mappable")
            e = m.meta.get("event") if isinstance(m, ExtObj) else None
            c = e.d.get("tkw", {}).get("c") if e is not None else None
            if c is None:
                continue
            ps = {x.a[1] for x in leaves(c) if x.op == "col"} & W.blind
            if ps:
                s.ob("colour bars of blinded parameters")
                if cb["axis"].shows:
                    s.bad("colorbar", f"{run.name}: a colour bar shows numeric labels of the blinded parameter {sorted(ps)}", cb["event"].site if cb["event"] else "plotter")
        for o, name, t, e in fig.texts:
            ps = {x.a[1] for x in leaves(t) if x.op == "col"} & W.blind
            s.ob("texts")
            if ps:
                s.bad(f"text:{name}:{fnof(e)}", f"{run.name}: {name} shows a text computed from the samples of the blinded parameter {sorted(ps)}", e.site)

    full = ctx.tier == "thorough"
    cases = []
    for blind in (["B"], ["A"], True):
        for logs in ((), ("B",), ("A", "B")):
            cases.append({"blind": blind, "log_scales": logs})
    for m in PLOTS:
        for c in cases:
            for extra in ([{}, {"flip": True}, {"plot_hists": False}] if m == "plot" else [{}]):
                for nch in (1, 2):
                    if nch == 1 and m == "plot_walks":
                        continue
                    nm = f"{m} blind={c['blind']} log={','.join(c['log_scales'])} {extra or ''} {nch} chain(s)"
                    ctx.queue(nm, lambda W, m=m, c=c, extra=extra, nch=nch: scene(W, m, cols=(("A", "B"),) * nch, cfg={**c, **extra}), judge)
    for m in PLOTS:
        for c in ({"blind": ["B"], "log_scales": ("B", "D")}, {"blind": True, "log_scales": ("A", "B")}):
            for extra in ([{}, {"flip": True}, {"plot_hists": False}] if m == "plot" else [{}]):
                ctx.queue(f"{m} 3 parameters blind={c['blind']} {extra or ''}", lambda W, m=m, c=c, extra=extra: scene(W, m, cols=(("A", "B", "D"),), cfg={**c, **extra}), judge)
        ctx.queue(f"{m} ticks horizontal", lambda W, m=m: scene(W, m, cols=(("A", "B"),), cfg={"blind": ["A"], "diagonal_tick_labels": False}), judge)
    cloud = {"plot_cloud": True, "color_param": "K"}
    for b in (["K"], True, ["A", "K"]):
        ctx.queue(f"colour bar blind={b}", lambda W, b=b: scene(W, "plot", cols=(("A", "B"), ("A", "B")), cfg={"blind": b}, opts=(cloud, {})), judge)
    ctx.queue("colour bar of a plotted parameter", lambda W: scene(W, "plot", cols=(("A", "B", "D"), ("A", "B", "D")), cfg={"blind": ["B"]}, opts=({"plot_cloud": True, "color_param": "B"}, {})), judge)
    for st in ("HDI", "MEAN", "CUMULATIVE"):
        ctx.queue(f"titles {st}", lambda W, st=st: scene(W, "plot", cols=(("A", "B"),), cfg={"blind": ["B"]}, opts=({"statistics": S(W, st)},)), judge)
        ctx.queue(f"distribution titles {st}", lambda W, st=st: scene(W, "plot_distributions", cols=(("A", "B"),), cfg={"blind": ["B"]}, opts=({"statistics": S(W, st), "multimodal": st == "HDI"},)), judge)
    ctx.queue("summary error bars", lambda W: scene(W, "plot_summary", cfg={"blind": ["B"], "log_scales": ("B",)}, kw={"errorbar": True}), judge)
    ctx.flush()
    for m in PLOTS:
        c = {"blind": ["B"], "log_scales": ("B",)}
        ctx.explore(f"{m} conditions", lambda W, m=m, c=c: scene(W, m, cols=(("A", "B"),), cfg=c), judge, depth=2 if full else 1, limit=600 if full else 40)

    def table(W, blind, tr):
        ch = [W.chain("chain z", label="X1"), W.chain("chain y", label="X2")]
        W.blind = {"A", "B"} if blind is True else set(blind)
        cc = W.consumer(*ch, config=W.config(blind=blind if blind is True else VList(list(blind)), labels=VDict([("A", "lab_A"), ("B", "lab_B")])))
        W.mark()
        W.ret = W.call(W.attr(cc, "analysis"), "get_latex_table", transpose=tr)

    def tjudge(run, s):
        if crashed(run, s):
            return
        T = Table(run.W.ret)
        if not T.ok:
            s.undecided("table not understood")
            return
        for r in T.rows:
            for cell in r:
                s.ob("table cells")
                for p in run.W.blind:
                    if any(x.op == "col" and x.a[1] == p for t in T.of(cell) if isinstance(t, Term) for x in leaves(t)):
                        s.bad("table:value", f"{run.name}: a table cell shows a value of the blinded parameter {p}", "analysis")
                    if f"lab_{p}" in T.plain(cell):
                        s.bad("table:label", f"{run.name}: the table has an entry for the blinded parameter {p}", "analysis")

    for b in (["A"], ["B"], True):
        for tr in (False, True):
            ctx.explore(f"table blind={b} transpose={tr}", lambda W, b=b, tr=tr: table(W, b, tr), tjudge, depth=1 if b == ["A"] else 0)



# ---------------------------------------------------------------------------------------------- shared scenes
def scenes(ctx, judge, deep=("plot",), truths=(), extra=()):
    """figures over the plot types, density estimators, layouts, clouds, points, column subsets and chains that lack a parameter"""
    full = ctx.tier == "thorough"
    Q = ctx.queue
    tr = tuple(truths)
    for m in PLOTS:
        for cfgn, cfg in (("", {}), ("log", {"log_scales": ("B",)}), ("flip", {"flip": True, "log_scales": ("A", "B", "D")}), ("no histograms", {"plot_hists": False, "log_scales": ("A",)})):
            if m != "plot" and cfgn in ("flip", "no histograms"):
                continue
            Q(f"{m} {cfgn}", lambda W, m=m, cfg=cfg: scene(W, m, cfg=cfg, truths=tr), judge)
            Q(f"{m} {cfgn} 3 parameters", lambda W, m=m, cfg=cfg: scene(W, m, cols=(("A", "B", "D"), ("D", "B")), cfg=cfg, truths=tr), judge)
        Q(f"{m} subset", lambda W, m=m: scene(W, m, cols=(("A", "B", "D"), ("B", "A"), ("D",)), columns=("D", "A"), select=(1, 0), truths=tr), judge)
        Q(f"{m} 5 parameters", lambda W, m=m: scene(W, m, cols=(("A", "B", "D", "E", "F"), ("F", "D", "A"), ("B", "E")), cfg={"log_scales": ("E",)}, truths=tr), judge)
        Q(f"{m} 5 parameters reordered", lambda W, m=m: scene(W, m, cols=(("A", "B", "D", "E", "F"), ("F", "D", "A", "B")), columns=("F", "A", "E", "D"), cfg={"plot_hists": False}, truths=tr), judge)
        Q(f"{m} one parameter", lambda W, m=m: scene(W, m, cols=(("A", "B"), ("A",)), columns=("A",), truths=tr), judge)
        Q(f"{m} one chain", lambda W, m=m: scene(W, m, cols=(("A", "B"),), truths=tr), judge)
        Q(f"{m} extents", lambda W, m=m: scene(W, m, ext=("A", "B"), truths=tr), judge)
        for on, o in (("unsmoothed", {"smooth": 0}), ("kde", {"kde": 1.2}), ("grid", {"grid": True}), ("power", {"power": 2.0, "smooth": 0}), ("cloud", {"plot_cloud": True, "plot_point": True}),
                      ("point only", {"plot_point": True, "plot_contour": False, "linestyle": Ellipsis}), ("cloud only", {"plot_cloud": True, "plot_contour": False}), ("no shade", {"shade": False, "bar_shade": False}),
                      ("labels", {"show_contour_labels": True}), ("colour", {"plot_cloud": True, "color_param": "K"})):
            Q(f"{m} {on}", lambda W, m=m, o=o: scene(W, m, opts=(o, {}), truths=tr), judge)
        Q(f"{m} hdi", lambda W, m=m: scene(W, m, opts=({"statistics": S(W, "HDI"), "multimodal": True}, {}), truths=tr), judge)
        Q(f"{m} hdi alone", lambda W, m=m: scene(W, m, cols=(("A", "B"),), opts=({"statistics": S(W, "HDI"), "multimodal": True},), truths=tr), judge)
    for o, n in (({"smooth": 0}, "unsmoothed"), ({"kde": 1.2}, "kde"), ({"grid": True}, "grid"), ({"statistics": "MEAN"}, "mean")):
        def sc(W, o=o):
            o = dict(o)
            if o.get("statistics"):
                o["statistics"] = S(W, o["statistics"])
            scene(W, "plot", opts=(o, o), cfg={"flip": True}, truths=tr)

        Q(f"plot flip {n}", sc, judge)
    Q("plot_summary error bars", lambda W: scene(W, "plot_summary", kw={"errorbar": True}, truths=tr), judge)
    Q("plot_walks convolved", lambda W: scene(W, "plot_walks", kw={"convolve": 10}, cfg={"log_scales": ("A",)}, truths=tr), judge)
    Q("plot_walks parameters only", lambda W: scene(W, "plot_walks", kw={"plot_weights": False, "plot_posterior": False}, truths=tr), judge)
    Q("plot_walks no posterior panel", lambda W: scene(W, "plot_walks", kw={"plot_posterior": False}, truths=tr), judge)
    Q("plot_walks log weight", lambda W: scene(W, "plot_walks", kw={"log_weight": True}, truths=tr), judge)
    Q("plot_distributions wrapped", lambda W: scene(W, "plot_distributions", cols=(("A", "B", "D"), ("A", "D")), kw={"col_wrap": 2}, truths=tr), judge)
    Q("plot colour of a plotted parameter", lambda W: scene(W, "plot", cols=(("A", "B", "D"), ("A", "B", "D")), opts=({"plot_cloud": True, "color_param": "B"}, {}), truths=tr), judge)
    Q("plot hidden legend entry", lambda W: scene(W, "plot", cols=(("A", "B"),) * 3, opts=({}, {"show_label_in_legend": False}, {}), cfg={"legend_color_text": True, "show_legend": True}, truths=tr), judge)
    Q("plot override", lambda W: scene(W, "plot", override={"bar_shade": False, "plot_point": True}, truths=tr), judge)
    for n, f in extra:
        Q(n, f, judge)
    ctx.flush()
    for m in PLOTS:
        for o, n in (({}, ""), ({"kde": 1.2, "plot_cloud": True, "plot_point": True}, "kde cloud point")):
            ctx.explore(f"{m} conditions {n}", lambda W, m=m, o=o: scene(W, m, opts=(o, {}), truths=tr), judge, depth=2 if full else 1, limit=800 if full else 60)


def free(ctx, judge):
    """the drawing functions used on an axis of the caller"""
    for n, o in (("", {}), ("kde", {"kde": 1.2}), ("unsmoothed", {"smooth": 0}), ("grid", {"grid": True}), ("cloud", {"plot_cloud": True, "plot_point": True, "color_param": "K"})):
        def sc(W, o=o):
            oo = {**styles(W, "X1", 1), **o}
            ch = W.chain("chain z", label="X1", extra=("K",) if o.get("color_param") else (), **oo)
            W.method, W.columns, W.log_scales, W.blind, W.cols_of, W.names = "free", ["A", "B"], set(), set(), {"X1": {"A", "B"}}, {"X1": "chain z"}
            W.cfg, W.truths, W.flip, W.plot_hists = {}, [], False, True
            W.mark()
            free_plots(W, ch)

        ctx.explore(f"functions {n}", sc, judge, limit=30 if ctx.tier == "quick" else 300)


# ---------------------------------------------------------------------------------------------- C07
def C07(ctx):
    """Attribution analysis: every value placed along an axis (coordinates of curves, points, histograms, shaded intervals, grids, lines, limits) is attributed to the parameter whose
    translation it follows (coefficient 1 for that parameter and 0 for all others), or to none (densities, step indices). Along an axis of the panel layout everything must be attributed to the axis'
    own parameter; density axes carry heights computed from the panel's parameter only. The dimensions of every two-dimensional grid are followed through histogram2d, meshgrid, transposition
    and reshaping and must match the axes; an axis is logarithmic exactly when its parameter is configured so."""

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        fig, lay, par = figure(W)
        if W.method == "free":
            W._lay = lay = {}
            for i, p in enumerate(fig.panels.values()):
                p.free = Want("A", "density", "hist") if i == 0 else Want("A", "B", "joint")
            work = [((0, i), p, p.free) for i, p in enumerate(fig.panels.values())]
        else:
            work = list(panels(W))
        for k, p, w in work:
            own = [q for q in (w.x, w.y) if q in ALLP]
            for a in p.artists:
                for ax, role, t in a.along():
                    axis(run, s, W, par, k, w, a, ax, role, t, own)
                z = a.z()
                if z is not None and w.kind == "joint":
                    grid(run, s, W, par, k, w, a, z)
                    coords(run, s, par, z, a)
                if a.name in DATAONLY or a.extra:
                    s.undecided(f"{run.name}: {a.name}")
            if w.kind == "empty":
                continue
            for ax in "xy":
                want = w.axis(ax)
                st = p.axis(ax)
                if W.method == "free":
                    continue
                if want in ALLP:
                    s.ob("axis scales")
                    if st.log not in ("?",) and (st.log == "log") != (want in W.log_scales):
                        s.bad(f"scale:{W.method}:{ax}:{'missing' if want in W.log_scales else 'extra'}", f"{run.name}: panel {k}: the {ax} axis of {want} is {'not ' if want in W.log_scales else ''}logarithmic", st.scaled or "plotter")
                elif want == "density":
                    s.ob("axis scales")
                    if st.log == "log":
                        s.bad(f"scale:{W.method}:{ax}:density", f"{run.name}: panel {k}: the density axis ({ax}) is logarithmic because of the parameter's log scale", st.scaled or "plotter")
                if st.lim is not None and (p.artists or want in ALLP):
                    for t in st.lim:
                        if not isinstance(t, Term):
                            continue
                        q, sure = par.of(t)
                        s.ob("axis limits")
                        if want in ALLP:
                            if q is not None and q != want and (sure or want not in par.deps(t)):
                                s.bad(f"limit:{W.method}:{ax}", f"{run.name}: panel {k}: the {ax} axis of {want} is limited by values of {q}", st.limsite)
                        elif want in ("density", "step") and p.artists and isinstance(q, str) and sure and any(any(x == ax for x, _, _ in a.along()) and labels_of(W, a.args_term()) for a in p.artists):
                            s.bad(f"limit:{W.method}:{ax}:{want}", f"{run.name}: panel {k}: the {want} axis ({ax}) is limited by values of the parameter {q}", st.limsite)

    def axis(run, s, W, par, k, w, a, ax, role, t, own):
        want = w.axis(ax)
        key = f"{a.name}:{fnof(a)}:{ax}"
        if w.kind == "empty":
            if par.deps(t):
                s.bad(f"empty:{key}", f"{run.name}: {a.name} draws in the unused panel {k}", a.site)
            return
        q, sure = par.of(t)
        deps = par.deps(t)
        s.ob("values placed along an axis")
        if role == "err":
            if deps and not deps <= set(own):
                s.bad(key, f"{run.name}: panel {k}: {a.name} has an error bar of {sorted(deps)} along the {ax} axis of {want}", a.site, stack=stack_txt(a))
            return
        if want in ALLP:
            if isinstance(q, str) and q != want or isinstance(q, tuple) and (sure or want not in q):
                s.bad(key, f"{run.name}: panel {k}: {a.name} places values of {q} along the {ax} axis of {want}", a.site, stack=stack_txt(a), value=show(t, 3))
            elif q is None and deps and sure:
                s.bad(key, f"{run.name}: panel {k}: {a.name} places a density or count along the {ax} axis of the parameter {want}", a.site, stack=stack_txt(a), value=show(t, 3))
        elif want in ("density", "step"):
            if isinstance(q, (str, tuple)) and sure:
                s.bad(key, f"{run.name}: panel {k}: {a.name} places values of the parameter {q} along the {want} axis ({ax})", a.site, stack=stack_txt(a), value=show(t, 3))
            elif want == "density" and deps and not deps <= set(own):
                s.bad(key, f"{run.name}: panel {k}: {a.name} draws the density of {sorted(deps)} in the panel of {own}", a.site, stack=stack_txt(a), value=show(t, 3))
            elif want == "step" and samples_in(t):
                s.bad(key, f"{run.name}: panel {k}: {a.name} places sample values along the step axis", a.site, stack=stack_txt(a), value=show(t, 3))
        elif want == "data":
            cols = {x.a[1] for x in leaves(t) if x.op == "col"}
            if cols and cols != {w.data}:
                s.bad(key, f"{run.name}: the panel of {w.data} shows {sorted(cols)}", a.site, stack=stack_txt(a))

    def grid(run, s, W, par, k, w, a, z):
        g = par.axes_of(z)
        s.ob("two-dimensional grids")
        if g is None:
            s.undecided(f"{run.name}: orientation of {show(z, 1)[:80]}")
            return
        X = a.get("X")
        if X is None:
            s.bad(f"grid:{fnof(a)}", f"{run.name}: {a.name} is drawn without coordinates", a.site)
            return
        gx = par.axes_of(X)
        want = gx if gx else (w.y, w.x)
        if g != want:
            s.bad(f"grid:{fnof(a)}", f"{run.name}: panel {k} (x={w.x}, y={w.y}): the first dimension of the grid drawn by {a.name} runs over {g[0]} instead of {want[0]}", a.site, stack=stack_txt(a))

    def coords(run, s, par, z, a):
        """sample and evaluation points of a density estimate list their coordinates in the same order"""
        for x in subterms(z):
            if x.op == "bin" and x.a[0] == "-":
                l, r = stacked(x.a[1]), stacked(x.a[2])
                if l and r and len(l) == len(r):
                    lp, rp = [par.of(t)[0] for t in l], [par.of(t)[0] for t in r]
                    s.ob("coordinate orders")
                    if all(isinstance(q, str) for q in lp + rp) and lp != rp:
                        s.bad(f"coordinates:{fnof(a)}", f"{run.name}: evaluation points list the coordinates as {lp}, the samples as {rp}", a.site)

    def stacked(t):
        while isinstance(t, Term):
            if t.op == "T":
                t = t.a[0]
            elif t.op == "call" and short(t) in ("average", "mean", "asarray", "array", "atleast_2d", "column_stack", "vstack", "stack"):
                t = next((v for _, v in t.a[1] if isinstance(v, Term)), None)
            elif t.op in ("rows", "list"):
                return list(t.a[0])
            elif t.op == "ravel":
                t = t.a[0]
            else:
                return None
        return None

    tr = ({"A": 1, "B": 1}, {"B": 1, "marker": 1, "A": 1}, {"A": 1})
    scenes(ctx, judge, truths=tr)
    free(ctx, judge)


DATAONLY = {"imshow", "hist2d", "hexbin", "stairs", "axline", "tricontour", "tricontourf", "stem"}


def samples_in(t):
    """sample values (not just their number) reach this value"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.id in seen or x.op in ("len", "nrows"):
            continue
        seen.add(x.id)
        if x.op == "col":
            return True
        if x.op == "item" and isinstance(x.a[1], Term):
            todo.append(x.a[0])
            continue
        st = list(x.a)
        while st:
            y = st.pop()
            if isinstance(y, Term):
                todo.append(y)
            elif isinstance(y, tuple):
                st.extend(y)
    return False


# ---------------------------------------------------------------------------------------------- C08
LINE = {"c": "color", "color": "color", "lw": "line_width", "linewidth": "line_width", "ls": "line_style", "linestyle": "line_style", "alpha": "alpha", "zorder": "zorder"}
MARK = {"marker": "marker", "s": "marker_size", "color": "color", "c": "color", "facecolor": "color", "facecolors": "color", "edgecolor": "edge_color", "edgecolors": "edge_color", "linewidth": "marker_edge_width",
        "linewidths": "marker_edge_width", "lw": "marker_edge_width", "alpha": "alpha", "zorder": "zorder"}


def bare(t):
    while isinstance(t, Term):
        if t.op in ("list", "rows") and len(t.a[0]) == 1:
            t = t.a[0][0]
        elif t.op == "call" and short(t) in ("float", "asarray", "array", "atleast_1d", "float64") and t.a[1]:
            t = t.a[1][0][1]
        else:
            return t
    return t


def C08(ctx):
    """For every panel of every plot type and every registered truth: the value of the truth for the parameter of an axis (followed as a symbol) must reach a line or marker call along exactly
    that axis, unchanged, and every style argument of that call must be the same-named option of the same truth; nothing is drawn for a parameter the truth has no value for, and no such truth makes
    the analysed code fail."""

    def judge(run, s):
        W = run.W
        if run.exc is not None:
            if run.exc.cname in ("KeyError", "AttributeError") and run.base and any(str(a) in ALLP for a in run.exc.pargs):
                s.bad(f"error:{run.exc.cname}", f"{run.name}: a truth without a value for a displayed parameter fails: {run.exc}", run.exc.where)
            crashed(run, s)
            return
        fig, lay, par = figure(W)
        for k, p, w in panels(W):
            if w.kind in ("empty", "name"):
                continue
            drawn = {}
            for a in p.artists:
                who = set()
                for _, _, t in a.along():
                    who |= truths_of(t)
                sty = set()
                for t in a.terms():
                    sty |= truths_of(t)
                if not who and not sty:
                    continue
                s.ob("truth lines and markers")
                if len(who) > 1:
                    s.bad(f"mixed:{fnof(a)}", f"{run.name}: panel {k}: {a.name} combines values of {sorted(who)}", a.site)
                    continue
                if not who:
                    if any(True for ax, _, t in a.along() if t.op == "c" and t.a[0] is None):
                        s.bad(f"none:{fnof(a)}", f"{run.name}: panel {k}: {a.name} is called without a value for {sorted(sty)}", a.site)
                    continue
                T = next(iter(who))
                for n in ("x", "y"):
                    v = a.args.get(n)
                    if v is not None and v.op == "c" and v.a[0] is None:
                        s.bad(f"none:{fnof(a)}", f"{run.name}: panel {k}: {a.name} is called with a missing value of {T}", a.site)
                for ax, _, t in a.along():
                    q, sure = par.of(t)
                    if not truths_of(t):
                        continue
                    if q != w.axis(ax) and isinstance(q, str):
                        s.bad(f"axis:{fnof(a)}:{a.name}", f"{run.name}: panel {k} (x={w.x}, y={w.y}): the value of {T} for {q} is drawn along the {ax} axis", a.site, stack=stack_txt(a))
                        continue
                    b = bare(t)
                    if b.op in ("bin", "un") or b.op == "call":
                        s.bad(f"value:{fnof(a)}:{a.name}", f"{run.name}: panel {k}: {a.name} draws {show(b, 2)[:80]} instead of the value of {T}", a.site)
                    drawn.setdefault((T, ax), []).append(a)
                style(run, s, W, k, a, T)
            for i, spec in enumerate(W.truth_specs):
                T = f"T{i + 1}"
                for ax in "xy":
                    q = w.axis(ax)
                    if q not in ALLP:
                        continue
                    s.ob("truth values and panels")
                    if q in spec and (T, ax) not in drawn:
                        s.bad(f"missing:{W.method}:{w.kind}:{ax}:{'marker' if 'marker' in spec else 'line'}", f"{run.name}: panel {k}: {T} has a value for {q} but nothing is drawn along the {ax} axis", "plotter")

    def style(run, s, W, k, a, T):
        spec = W.truth_specs[int(T[1:]) - 1]
        table = MARK if a.name == "scatter" else LINE
        have = set()
        for n, t in a.args.items():
            if n not in table:
                continue
            own = [x for x in leaves(t) if x.op == "opt"]
            s.ob("style arguments of truths")
            for x in own:
                have.add(x.a[1])
                if x.a[0] != T:
                    s.bad(f"style-owner:{fnof(a)}:{n}", f"{run.name}: panel {k}: {a.name} draws {T} with {n} of {x.a[0]}", a.site)
                elif x.a[1] != table[n] and not (table[n] == "edge_color" and x.a[1] == "color" and not W.edge.get(T, True)):
                    s.bad(f"style:{fnof(a)}:{n}", f"{run.name}: panel {k}: {a.name} passes the truth's {x.a[1]} as {n}", a.site)
        if a.name == "scatter":
            need = {"marker", "marker_size", "color", "alpha", "zorder"} | ({"edge_color", "marker_edge_width"} if W.filled else set())
        else:
            need = {"color", "line_width", "line_style", "alpha", "zorder"}
        for n in need - have:
            s.bad(f"style-missing:{fnof(a)}:{a.name}:{n}", f"{run.name}: panel {k}: {a.name} draws {T} without its own {n}", a.site)

    def wrap(f):
        def sc(W):
            W.edge, W.filled = {}, True
            f(W)
        return sc

    class Q:
        """scenes with the style bookkeeping"""
        tier = ctx.tier

        @staticmethod
        def queue(n, f, j):
            ctx.queue(n, wrap(f), j)

        @staticmethod
        def explore(n, f, j, **k):
            return ctx.explore(n, wrap(f), j, **k)

        flush = staticmethod(ctx.flush)

    tr = ({"A": 1, "B": 1}, {"B": 1, "marker": 1, "A": 1}, {"A": 1}, {"D": 1, "B": 1, "marker": 1})
    scenes(Q, judge, truths=tr)
    for m in PLOTS:
        for o in (({"B": 1},), ({"A": 1}, {"B": 1, "marker": 1}), ({"D": 1, "marker": 1}, {"D": 1})):
            Q.queue(f"{m} truths {[sorted(x) for x in o]}", lambda W, m=m, o=o: scene(W, m, truths=o), judge)
            Q.queue(f"{m} truths {[sorted(x) for x in o]} log", lambda W, m=m, o=o: scene(W, m, truths=o, cfg={"log_scales": ("A", "B")}), judge)
    ctx.flush()


# ---------------------------------------------------------------------------------------------- C09
import re  # noqa: E402


def text_of(t):
    """(label symbols, literal text) of an abstract string"""
    labs, lit = set(), []
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            lit.append(x)
            continue
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "opt":
            if x.a[0] == "label":
                labs.add(x.a[1])
            continue
        if x.op == "c":
            if isinstance(x.a[0], str):
                lit.append(x.a[0])
            continue
        if x.op == "smeth" and x.a[0] in ("strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "rjust", "ljust", "center"):
            todo.append(x.a[1])
            continue
        if x.op == "fmt" and len(x.a) == 2:
            todo.append(x.a[1])
            continue
        if x.op in ("call", "col", "item", "extcall", "ext", "sym", "bin", "cmp"):
            continue
        st = list(x.a)
        while st:
            y = st.pop()
            if isinstance(y, (Term, str)):
                todo.append(y)
            elif isinstance(y, tuple):
                st.extend(y)
    return labs, "".join(lit)


def named(t, labels):
    """parameters a displayed text names, and those named by a bare column name although a label is configured"""
    labs, lit = text_of(t)
    names = {p for p in ALLP if re.search(rf"(?<![A-Za-z0-9_]){p}(?![A-Za-z0-9_])", lit)}
    return labs | (names - set(labels)), names & set(labels)


def C09(ctx):
    """Every text placed on a figure (axis labels, titles, colour bar labels) and every header and row cell of the LaTeX tables is followed back to the label table of the configuration: a
    text that names a parameter must carry the configured label of the parameter of its own axis, panel, colour bar, row or column, or the bare column name only when no label is
    configured. Titles and table entries must also take their numbers from that parameter."""
    LABS = ("A", "B", "K")

    def one(run, s, W, where_, p, t, e, name):
        got, bareset = named(t, W.labelled)
        s.ob("displayed names")
        if bareset:
            s.bad(f"bare:{name}:{fnof(e)}", f"{run.name}: {where_}: {name} shows the column name {sorted(bareset)} although a label is configured", e.site, stack=stack_txt(e))
        elif got and got != {p}:
            s.bad(f"label:{name}:{fnof(e)}", f"{run.name}: {where_}: {name} shows the label of {sorted(got)}, expected that of {p}", e.site, stack=stack_txt(e))
        return got

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        if not hasattr(W, "labelled"):
            W.labelled = LABS
        fig, lay, par = figure(W)
        work = list(panels(W)) if W.method != "free" else [((0, i), p, Want("A", "density", "hist") if i == 0 else Want("A", "B", "joint")) for i, p in enumerate(fig.panels.values())]
        for k, p, w in work:
            own = [q for q in (w.x, w.y) if q in ALLP]
            for name, t, e in p.texts:
                if name in ("set_xlabel", "set_ylabel", "set_label_text"):
                    ax = "x" if name == "set_xlabel" or (name == "set_label_text" and e.obj.meta.get("name") == "xaxis") else "y"
                    q = w.axis(ax)
                    got, bareset = named(t, W.labelled)
                    if q in ALLP:
                        one(run, s, W, f"panel {k}", q, t, e, name)
                    elif got or bareset:
                        s.bad(f"label:{name}:{fnof(e)}:none", f"{run.name}: panel {k}: {name} names {sorted(got | bareset)} on an axis that is not a parameter's", e.site)
                elif name == "set_title" and w.kind in ("hist", "summary") and own:
                    one(run, s, W, f"panel {k}", own[0], t, e, name)
                    num_ = {x.a[1] for x in leaves(t) if x.op == "col" and x.a[1] in ALLP}
                    if num_ and num_ != {own[0]}:
                        s.bad(f"title-value:{fnof(e)}", f"{run.name}: panel {k}: the title of {own[0]} shows numbers of {sorted(num_)}", e.site)
                elif name in ("text", "annotate", "set_title"):
                    got, bareset = named(t, W.labelled)
                    s.ob("displayed names")
                    if bareset:
                        s.bad(f"bare:{name}:{fnof(e)}", f"{run.name}: panel {k}: {name} shows the column name {sorted(bareset)} although a label is configured", e.site)
            # final state of the labels
            for ax in "xy":
                v = p.ax.attrs.get(f"@{ax}label")
                q = w.axis(ax)
                if v in (None, "") or q not in ALLP:
                    continue
                t = to_term(v)
                got, bareset = named(t, W.labelled)
                s.ob("final axis labels")
                if bareset or got and got != {q}:
                    s.bad(f"final:{ax}", f"{run.name}: panel {k}: the {ax} axis of {q} is labelled {sorted(got | bareset)}", "plotter")
        for cb in fig.cbars:
            m = cb["obj"].meta.get("mappable")
            e0 = m.meta.get("event") if isinstance(m, ExtObj) else None
            c = e0.d.get("tkw", {}).get("c") if e0 is not None else None
            if c is None:
                continue
            ps = {x.a[1] for x in leaves(c) if x.op == "col"}
            if len(ps) != 1:
                continue
            q = ps.pop()
            for name, t, e in cb["texts"]:
                if q in ALLP:
                    one(run, s, W, "colour bar", q, t, e, "colour bar label")
                else:
                    got, bareset = named(t, W.labelled)
                    if got or bareset:
                        s.bad("cbar-label", f"{run.name}: the colour bar of {q} is labelled with {sorted(got | bareset)}", e.site)

    def lab(f, labels=LABS):
        def sc(W):
            W.labelled = labels
            f(W)
        return sc

    class Q:
        tier = ctx.tier

        @staticmethod
        def queue(n, f, j):
            ctx.queue(n, lab(f), j)

        @staticmethod
        def explore(n, f, j, **k):
            return ctx.explore(n, lab(f), j, **k)

        flush = staticmethod(ctx.flush)

    scenes(Q, judge, truths=({"A": 1},))
    for m in PLOTS:
        for labels in ((), ("B",), ("D",)):
            ctx.queue(f"{m} labels {labels}", lab(lambda W, m=m, labels=labels: scene(W, m, cols=(("A", "B", "D"), ("D", "A")), labels=labels), labels), judge)
        for n in (1, 2):  # an empty label is a label

            def nothing(W, m=m, n=n):
                W.label_wit = {"A": "", "K": ""}
                scene(W, m, cols=(("A", "B"),) * n, opts=({"plot_cloud": True, "color_param": "K"},) * (n - 1))

            ctx.queue(f"{m} empty label {n} chains", lab(nothing), judge)
        for c in ({"blind": ["A"]}, {"blind": True}, {"summarise": False}):
            ctx.queue(f"{m} {c}", lab(lambda W, m=m, c=c: scene(W, m, cols=(("A", "B"),), cfg=c), LABS), judge)
    for st in ("HDI", "MEAN", "CUMULATIVE", "MAX_CENTRAL"):
        for m in ("plot", "plot_distributions"):
            ctx.queue(f"{m} titles {st}", lab(lambda W, m=m, st=st: scene(W, m, cols=(("A", "B"),), opts=({"statistics": S(W, st), "multimodal": st == "HDI"},))), judge)
    ctx.flush()

    def free_lab(W):
        W.labelled = ("A", "B")
        ch = W.chain("chain z", label="X1")
        W.method, W.columns, W.log_scales, W.blind, W.cols_of, W.names = "free", ["A", "B"], set(), set(), {"X1": {"A", "B"}}, {"X1": "chain z"}
        W.cfg, W.truths, W.flip, W.plot_hists = {}, [], False, True
        cfg = W.config(labels=VDict([(p, W.opt("label", p, f"lab_{p}")) for p in W.labelled]))
        f = W.I.load("chainconsumer.plotting.contours").ns.get("plot_dist")
        if f is None:
            return
        W.mark()
        W.I.call(f, [ExtObj("Axes", "free", meta={"row": 0, "col": 0, "nrows": 1, "ncols": 1}), ch, "A"], {"config": cfg, "summary": True})

    ctx.explore("plot_dist title", free_lab, judge)

    def tab(W, m, labels, kw, wit=None):
        W.labelled = labels
        ch = [W.chain("chain z", label="X1", cols=("A", "B", "D")), W.chain("chain y", label="X2", cols=("B", "A"))]
        cc = W.consumer(*ch, config=W.config(labels=VDict([(p, W.opt("label", p, "" if wit == p else f"lab_{p}")) for p in labels])))
        W.mark()
        W.m = m
        an = W.attr(cc, "analysis")
        W.ret = W.call(an, m, **kw) if m == "get_latex_table" else W.call(an, m, ch[0], **{k: VList(list(v)) for k, v in kw.items()})
        W.order = list(kw.get("columns", ("A", "B", "D")))
        W.tr = kw.get("transpose", False)

    def tjudge(run, s):
        if crashed(run, s):
            return
        W = run.W
        T = Table(W.ret)
        if not T.ok:
            s.undecided("table not understood")
            return
        E = type("E", (), {"site": "analysis", "stack": ()})
        for i, r in enumerate(T.rows):
            for j, cell in enumerate(r):
                t = mk("cat", tuple([x for x in cell_parts(T, cell)]))
                got, bareset = named(t, W.labelled)
                s.ob("table cells")
                if bareset and (i == 0 or j == 0):
                    s.bad(f"table-bare:{W.m}", f"{run.name}: the table shows the column name {sorted(bareset)} although a label is configured", "analysis")
                if i > 0 and j > 0:
                    # numbers belong to the parameter named by the header
                    head = [named(mk("cat", tuple(cell_parts(T, c))), W.labelled)[0] for c in ((T.rows[0][j],) if j < len(T.rows[0]) else ()) + (r[0],)]
                    ps = set().union(*head)
                    nums = {x.a[1] for tt in T.of(cell) if isinstance(tt, Term) for x in leaves(tt) if x.op == "col" and x.a[1] in ALLP}
                    if W.m == "get_latex_table" and ps and nums and nums != ps:
                        s.bad(f"table-value:{W.m}", f"{run.name}: the entry under {sorted(ps)} shows numbers of {sorted(nums)}", "analysis")
        heads = []
        for c in (T.rows[0][1:] if not W.tr else [r[0] for r in T.rows[1:]]):
            heads.append(named(mk("cat", tuple(cell_parts(T, c))), W.labelled)[0])
        rowh = []
        if W.m != "get_latex_table":
            rowh = [named(mk("cat", tuple(cell_parts(T, r[0]))), W.labelled)[0] for r in T.rows[1:]]
        for what, hs in (("headers", heads), ("rows", rowh)):
            if not hs:
                continue
            s.ob("table labels", len(hs))
            if [sorted(h) for h in hs] != [[p] for p in W.order]:
                s.bad(f"table-{what}:{W.m}", f"{run.name}: the {what} name {[sorted(h) for h in hs]}, expected {W.order}", "analysis")

    for labels in (("A", "B", "D"), ("B",), ()):
        for tr_ in (False, True):
            ctx.explore(f"parameter table {labels} transpose={tr_}", lambda W, labels=labels, tr_=tr_: tab(W, "get_latex_table", labels, {"transpose": tr_}), tjudge, depth=1 if labels == ("A", "B", "D") else 0, limit=40)
        for m in ("get_covariance_table", "get_correlation_table"):
            ctx.base_only(f"{m} {labels}", lambda W, labels=labels, m=m: tab(W, m, labels, {}), tjudge)
            ctx.base_only(f"{m} {labels} columns", lambda W, labels=labels, m=m: tab(W, m, labels, {"columns": ("D", "A")}), tjudge)
    for m, kw in (("get_latex_table", {}), ("get_latex_table", {"transpose": True}), ("get_covariance_table", {}), ("get_correlation_table", {})):
        ctx.base_only(f"{m} {kw} empty label", lambda W, m=m, kw=kw: tab(W, m, ("A", "B", "D"), kw, wit="A"), tjudge)


def cell_parts(T, cell):
    out = []
    for x in re.split("(\x01\\d+\x01)", cell):
        if x.startswith("\x01"):
            out.append(T.terms[int(x.strip("\x01"))])
        elif x:
            out.append(mk("c", x))
    return out



# ---------------------------------------------------------------------------------------------- C24
def C24(ctx):
    """Ordering and value flow of the save calls: for every plotting method and every form of the file argument (none, one string, one path, a list) the set of savefig calls on the returned
    figure is compared with the requested files, each with the configured resolution, and no call that draws on or changes the figure, its axes, legends or texts may follow the first save; a
    configured watermark must have been written before it. Without a file name no save and no open call may happen."""
    QUIET = ("get_", "draw", "savefig", "flush_events", "tight_bbox")

    def judge(run, s):
        W = run.W
        if crashed(run, s):
            return
        fig, lay, par = figure(W)
        evs = W.events()
        saves = []
        for n, e in enumerate(evs):
            if e.kind == "ext" and e.name in ("savefig", "print_figure"):
                saves.append((n, e, e.obj, list(e.d["args"]), e.d["kw"]))
            elif e.kind == "extcall" and str(e.path).endswith("pyplot.savefig"):
                saves.append((n, e, None, list(e.d["args"]), e.d["kw"]))
        f = W.filename
        want = [] if f is None else list(f.items) if isinstance(f, VList) else [f]
        s.check(isinstance(W.ret, ExtObj) and W.ret.kind == "Figure", "plotting calls", f"return:{W.method}", f"{run.name}: the method does not return the figure", "plotter")
        if not want:
            s.ob("calls without a file name")
            for n, e, *_ in saves:
                s.bad(f"unasked:{W.method}", f"{run.name}: a file is written although none was requested", e.site, stack=stack_txt(e))
            for e in evs:
                if e.kind == "open" and "r" != str(e.mode)[:1]:
                    s.bad(f"unasked:{W.method}", f"{run.name}: a file is opened although none was requested", e.site)
            return
        s.ob("requested files", len(want))
        hit = set()
        for n, e, o, a, kw in saves:
            t = a[0] if a else kw.get("fname", kw.get("filename"))
            ix = [i for i, w in enumerate(want) if same(t, w)]
            if not ix:
                s.bad(f"file:{W.method}", f"{run.name}: the figure is saved to {t!r}, which was not requested", e.site)
            hit.update(ix)
            if o is not None and o is not W.ret and isinstance(W.ret, ExtObj) and not (o.kind == "Canvas" and o.meta.get("parent") is W.ret):
                s.bad(f"figure:{W.method}", f"{run.name}: the saved figure is not the returned one", e.site)
            d = kw.get("dpi")
            s.ob("save calls")
            if d is None or not any(x.op == "opt" and x.a == ("cfg", "dpi") for x in leaves(to_term(d))):
                s.bad(f"dpi:{W.method}", f"{run.name}: the figure is saved with resolution {d!r} instead of the configured one", e.site, stack=stack_txt(e))
        for i, w in enumerate(want):
            if i not in hit:
                s.bad(f"unsaved:{W.method}:{len(want)}", f"{run.name}: the figure is not saved to the requested file {w!r}", "plotter")
        if not saves:
            return
        first = min(n for n, *_ in saves)
        for e in evs[first + 1:]:
            if e.kind == "ext" and not e.name.startswith(QUIET) and e.obj.kind in ("Figure", "Axes", "Axis", "artist", "text", "Legend", "Colorbar", "attr", "item", "PathCollection", "QuadContourSet", "TickLabel"):
                s.bad(f"late:{W.method}:{e.name}", f"{run.name}: {e.name} changes the figure after it was saved", e.site, stack=stack_txt(e))
            elif e.kind == "extset" and getattr(e.obj, "kind", "") in ("Figure", "Axes", "text", "artist"):
                s.bad(f"late:{W.method}:{e.name}", f"{run.name}: the figure is changed after it was saved", e.site)
        s.ob("calls before the save", first)
        if W.cfg.get("watermark") is not None:
            marks = [n for n, e in enumerate(evs) if e.kind == "ext" and e.name in ("text", "annotate", "suptitle") and any(x.op == "opt" and x.a == ("cfg", "watermark") for t in (e.d.get("targs") or []) for x in leaves(t))]
            if not marks or min(marks) > first:
                s.bad(f"watermark:{W.method}", f"{run.name}: the saved figure does not carry the configured watermark", "plotter")

    def same(t, w):
        if isinstance(t, str) or isinstance(w, str):
            return t == w
        if t is w:
            return True
        try:
            a, b = to_term(t), to_term(w)
        except Exception:
            return False
        if a is not b and a.op in ("smeth", "call", "fmt", "cat") and any(x is b for x in subterms(a)):
            return True
        return a is b

    def path(n):
        return ExtObj("Path", n, {}, term=mk("sym", "path", n))

    files = (("none", lambda: None), ("one", lambda: "f.png"), ("path", lambda: path("p")), ("list", lambda: VList(["f.png", "g.pdf"])), ("mixed list", lambda: VList([path("q"), "h.pdf", "i.png"])), ("one-element list", lambda: VList(["f.png"])))
    for m in PLOTS:
        for fn, mk_ in files:
            for wm in (False, True):
                def sc(W, m=m, mk_=mk_, wm=wm):
                    cfg = {"dpi": W.opt("cfg", "dpi", 123)}
                    if wm:
                        cfg["watermark"] = W.opt("cfg", "watermark", "draft")
                    scene(W, m, cfg=cfg, opts=({"plot_cloud": True, "color_param": "K"}, {}), truths=({"A": 1},), filename=mk_())

                ctx.explore(f"{m} {fn}{' watermark' if wm else ''}", sc, judge, depth=1 if fn in ("list", "one", "none") or ctx.tier == "thorough" else 0, limit=40 if ctx.tier == "quick" else 300)
        for k in ({"flip": True}, {"plot_hists": False}, {"usetex": True, "watermark": 1}):
            def sc2(W, m=m, k=k):
                k = dict(k)
                if k.get("watermark"):
                    k["watermark"] = W.opt("cfg", "watermark", "draft")
                scene(W, m, cfg={**k, "dpi": W.opt("cfg", "dpi", 123)}, filename="f.png")

            ctx.base_only(f"{m} {k}", sc2, judge)
        ctx.base_only(f"{m} error bars", lambda W, m=m: scene(W, m, cfg={"dpi": W.opt("cfg", "dpi", 123)}, kw={"errorbar": True} if m == "plot_summary" else {}, filename="f.png"), judge)


# ---------------------------------------------------------------------------------------------- C27
def C27(ctx):
    """Identity analysis: the samples, options and names reaching each drawing call, legend entry, row label and table row are traced to the chains they come from; a call mixing two chains, a
    style of another chain, a legend entry whose name and style disagree, a missing chain or an unselected one is a violation. Every chain carries distinct symbolic styles."""

    def enabled(W, L, kind, ps):
        o = W.opts_of.get(L, {})
        cols = set(W.cols_of[L]) | ({"K"} if o.get("color_param") == "K" else set())
        if o.get("plot_cloud") and o.get("color_param"):
            if kind in ("joint", "hist"):
                cols = cols - {o["color_param"]}
        if not set(ps) <= cols:
            return []
        out = []
        if kind == "hist":
            if o.get("plot_contour", True):
                out.append("marginal")
        elif kind == "joint":
            if o.get("plot_contour", True):
                out.append("contour")
            out += ["cloud"] * bool(o.get("plot_cloud")) + ["point"] * bool(o.get("plot_point"))
        elif kind in ("summary", "walk"):
            out.append(kind)
        return out

    def shows(a):
        if a.name in ("contour", "contourf"):
            return {"contour"}
        if a.name == "scatter":
            t = a.get("x")
            post = t is not None and any(x.op == "call" and short(x) in ("argmax", "idxmax", "argmin", "nanargmax") for x in subterms(t)) and any(x.op == "col" and x.a[1] == "log_posterior" for x in leaves(t))
            return {"point"} if post else {"cloud", "walk"}
        return {"marginal", "summary", "walk"}

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        fig, lay, par = figure(W)
        work = list(panels(W)) if W.method != "free" else [((0, i), p, None) for i, p in enumerate(fig.panels.values())]
        for k, p, w in work:
            got = {}
            for a in p.artists:
                pos = set()
                for _, _, t in a.along():
                    pos |= labels_of(W, t)
                z = a.z()
                if z is not None:
                    pos |= labels_of(W, z)
                al = set(pos)
                for t in a.terms():
                    al |= labels_of(W, t)
                s.ob("drawing calls")
                if truths_of(mk("list", tuple(a.terms()))) and al:
                    s.bad(f"truth:{fnof(a)}:{a.name}", f"{run.name}: panel {k}: {a.name} combines a truth with chain {sorted(al)}", a.site, stack=stack_txt(a))
                if len(al) > 1:
                    src = sorted(pos) if len(pos) == 1 else None
                    odd = sorted(n for n, t in a.args.items() if src and labels_of(W, t) - pos)
                    s.bad(f"mixed:{fnof(a)}:{a.name}", f"{run.name}: panel {k}: {a.name} combines chains {sorted(al)}" + (f" (data of {src[0]}, {', '.join(odd)} of another chain)" if src else ""), a.site, stack=stack_txt(a))
                    continue
                for L in pos:
                    got.setdefault(L, set()).update(shows(a))
                    if W.method == "free":
                        continue
                    if W.kw.get("errorbar"):
                        s.ob(f"error bars of chain {L}")
                    if L not in W.shown and W.method != "free":
                        s.bad(f"unselected:{W.method}", f"{run.name}: panel {k}: {a.name} draws chain {L}, which was not selected", a.site)
                    if w is not None and w.chains and L not in w.chains:
                        s.bad(f"row:{fnof(a)}:{a.name}", f"{run.name}: panel {k}: {a.name} draws chain {L} in the row of {w.chains[0]}", a.site, stack=stack_txt(a))
            if w is None:
                continue
            if w.kind == "name":
                L = w.chains[0]
                txt = [(t, e) for n, t, e in p.texts if n == "text"]
                s.ob("row labels")
                if run.base:
                    if not any(text_of(t)[1].strip() == W.names[L] for t, e in txt):
                        s.bad("rowname", f"{run.name}: row {k[0]} shows chain {L} ({W.names[L]}) but is labelled {[text_of(t)[1] for t, e in txt]}", txt[0][1].site if txt else "plotter")
                for t, e in txt:
                    c = (e.d.get("tkw") or {}).get("color")
                    o = labels_of(W, c) if c is not None else set()
                    if o - {L}:
                        s.bad("rowcolour", f"{run.name}: the label of row {k[0]} (chain {L}) has the colour of {sorted(o)}", e.site)
                continue
            if not run.base or w.kind == "empty":
                continue
            ps = [q for q in (w.x, w.y) if q in ALLP]
            for L in w.chains or W.shown:
                for feat in enabled(W, L, w.kind, ps):
                    if W.kw.get("errorbar"):
                        continue  # depends on the interval found: judged over all conditions below
                    s.ob("chains expected in a panel")
                    if feat not in got.get(L, set()):
                        s.bad(f"absent:{W.method}:{w.kind}:{feat}", f"{run.name}: panel {k}: the {feat} of chain {L} is not drawn", "plotter")
        for p, e in fig.legends:
            legend(run, s, W, e)
        for o, name, t, e in fig.texts:
            al = labels_of(W, t)
            if len(al) > 1:
                s.bad(f"text:{fnof(e)}", f"{run.name}: {name} combines chains {sorted(al)}", e.site)
        for e in W.events():
            if e.kind == "ext" and e.name == "set_color" and getattr(e.obj, "kind", "") == "text" and isinstance(e.obj.meta.get("handle"), ExtObj):
                L = owner(W, e.obj.meta["handle"])[0]
                o = labels_of(W, e.d["targs"][0]) if e.d.get("targs") else set()
                s.ob("legend text colours")
                if L and o and o != {L}:
                    s.bad("legend-colour", f"{run.name}: the legend text of chain {L} gets the colour of {sorted(o)}", e.site)

    def owner(W, h):
        """(chain named by a legend handle, chains its style comes from)"""
        kw = h.meta.get("kw", {})
        lab = kw.get("label")
        lit = text_of(to_term(lab))[1] if lab is not None else ""
        named = [L for L, n in W.names.items() if n in lit]
        sty = set()
        for n, v in kw.items():
            sty |= labels_of(W, to_term(v))
        for n, v in h.attrs.items():
            if isinstance(v, SV):
                sty |= labels_of(W, v.term)
        return (named[0] if len(named) == 1 else None), sty

    def legend(run, s, W, e):
        h = e.d["kw"].get("handles", e.d["args"][0] if e.d["args"] else None)
        if not isinstance(h, (VList, tuple)):
            s.undecided(f"{run.name}: legend handles")
            return
        seen = []
        for x in (h.items if isinstance(h, VList) else h):
            if not isinstance(x, ExtObj):
                s.undecided("legend handle")
                return
            L, sty = owner(W, x)
            s.ob("legend entries")
            if L is None:
                s.undecided(f"{run.name}: legend label")
                return
            seen.append(L)
            if sty - {L}:
                s.bad("legend-style", f"{run.name}: the legend entry named after chain {L} has the style of {sorted(sty)}", e.site)
        if run.base:
            want = [L for L in W.shown if W.opts_of[L].get("show_label_in_legend", True) is not False]
            if sorted(seen) != sorted(want):
                s.bad("legend-entries", f"{run.name}: the legend has entries for {seen}, expected {want}", e.site)

    scenes(ctx, judge, truths=({"A": 1, "B": 1}, {"A": 1, "marker": 1, "B": 1}), extra=[
        ("three chains, selected in another order", lambda W: scene(W, "plot", cols=(("A", "B"),) * 3, select=(2, 0))),
        ("three chains, summary of two", lambda W: scene(W, "plot_summary", cols=(("A", "B"), ("B", "A"), ("A",)), select=(2, 0))),
        ("three chains, error bars", lambda W: scene(W, "plot_summary", cols=(("A", "B"), ("B", "A"), ("A",)), select=(1, 2), kw={"errorbar": True})),
        ("three chains, walks", lambda W: scene(W, "plot_walks", cols=(("A", "B"), ("B", "A"), ("A",)), select=(2, 1))),
        ("three chains, distributions", lambda W: scene(W, "plot_distributions", cols=(("A", "B"), ("B", "A"), ("A",)), select=(2, 1, 0))),
        ("legend of mixed kinds", lambda W: scene(W, "plot", cols=(("A", "B"),) * 3, opts=({"plot_point": True, "plot_contour": False}, {"plot_cloud": True, "plot_contour": False}, {"plot_point": True}), cfg={"legend_artists": True})),
        ("legend with hidden entries", lambda W: scene(W, "plot", cols=(("A", "B"),) * 3, opts=({"show_label_in_legend": False}, {}, {}), cfg={"legend_color_text": True})),
        ("clouds coloured by data", lambda W: scene(W, "plot", cols=(("A", "B"),) * 2, opts=({"plot_cloud": True, "color_param": "K"}, {"plot_cloud": True, "color_param": "K"}))),
        ("names that contain each other", lambda W: scene(W, "plot_summary", cols=(("A", "B"),) * 2, names=("run", "second"))),
    ])
    free(ctx, judge)
    ctx.explore("error bars over conditions", lambda W: scene(W, "plot_summary", kw={"errorbar": True}), judge)
    ctx.check(all(ctx.obs[f"error bars of chain {L}"] for L in ("X1", "X2")) or any("error bars" in u for u in ctx.und), "error bar summaries", "errorbars", "plot_summary draws no error bar for a chain whatever its samples", "plotter.py")

    def tab(W, tr, cols):
        ch = [W.chain(n, label=f"X{i + 1}", cols=cs) for i, (n, cs) in enumerate(zip(("chain z", "chain y", "chain x"), cols))]
        W.cols_of = {f"X{i + 1}": set(c) for i, c in enumerate(cols)}
        W.names = {f"X{i + 1}": n for i, n in enumerate(("chain z", "chain y", "chain x")[: len(cols)])}
        cc = W.consumer(*ch)
        W.mark()
        W.ret = W.call(W.attr(cc, "analysis"), "get_latex_table", transpose=tr)

    def tjudge(run, s):
        if crashed(run, s):
            return
        W = run.W
        T = Table(W.ret)
        if not T.ok:
            s.undecided("table not understood")
            return
        for i, r in enumerate(T.rows):
            for j, cell in enumerate(r):
                own = set()
                for t in T.of(cell):
                    if isinstance(t, Term):
                        own |= labels_of(W, t)
                if not own or i == 0 or j == 0:
                    continue
                heads = (T.rows[0][j] if j < len(T.rows[0]) else "") + "|" + r[0]
                want = {L for L, n in W.names.items() if n in T.plain(heads)}
                s.ob("table entries")
                if want and own != want:
                    s.bad("table", f"{run.name}: the entry of chain {sorted(want)} shows values of {sorted(own)}", "analysis")

    for tr in (False, True):
        for cols in ((("A", "B"), ("B", "A")), (("A",), ("B", "A"), ("A", "B"))):
            ctx.explore(f"table transpose={tr} {len(cols)} chains", lambda W, tr=tr, cols=cols: tab(W, tr, cols), tjudge, limit=40)


RULES = {"C06": C06, "C07": C07, "C08": C08, "C09": C09, "C24": C24, "C27": C27}
