"""Options take effect (C31)."""
from __future__ import annotations

from calc import short
from common import *  # noqa: F403
from common import S, stack_txt
from figs import Figure, cv
from rules_plot import ALLP, crashed, figure, fnof, labels_of, panels, scene, styles, text_of, truths_of
from rules_stats import PLOTS, free_plots
from terms import Term, leaves, mk, num, show, subterms
from values import *  # noqa: F403
from values import ExtMeth, ExtObj, SV, VDict, VList, to_term

ROLE = {
    "lw": ("lw", "linewidth", "linewidths"),
    "ls": ("ls", "linestyle", "linestyles"),
    "color": ("color", "c", "colors", "facecolor", "facecolors", "fc"),
    "edge": ("edgecolor", "edgecolors", "ec"),
    "alpha": ("alpha",),
    "zorder": ("zorder",),
    "marker": ("marker",),
    "s": ("s", "markersize", "ms"),
    "size": ("fontsize", "size", "fontdict", "prop", "labelsize"),
    "levels": ("levels",),
    "cmap": ("cmap",),
}
LINES = {"plot", "hist", "step", "stairs", "semilogx", "semilogy", "loglog"}
FILLS = {"fill_between", "fill_betweenx", "fill"}


def mentions(t, o):
    return any(x is o for x in leaves(t)) if isinstance(t, Term) else False


def event_terms(e):
    out = list(e.d.get("targs") or []) + list((e.d.get("tkw") or {}).values())
    return out


class Flow:
    """which option symbols reach which call"""

    def __init__(self, W):
        self.W = W
        self.late = []  # setters on objects other than axes and figures
        for e in W.events("ext"):
            n = e.name
            if isinstance(e.obj, ExtMeth) or not (n == "set" or n.startswith("set_") or n == "update" or n == "setp"):
                continue
            if getattr(e.obj, "kind", "") in ("Axes", "Figure", "Axis", "Colorbar"):
                continue
            self.late.append(e)
        for e in W.events("extcall"):
            if e.path.endswith(".setp"):
                self.late.append(e)

    def after(self, o):
        for e in self.late:
            ts = event_terms(e) if e.kind == "ext" else [to_term(v) for v in list(e.d.get("args") or []) + list((e.d.get("kw") or {}).values())]
            if any(mentions(t, o) for t in ts):
                return True
        return False

    def role(self, args, role, o):
        """None: reaches it; else a description of what is there instead"""
        seen = None
        for n in ROLE.get(role, (role,)):
            v = args.get(n)
            if v is None:
                continue
            if mentions(v, o):
                return None
            seen = f"{n}={show(v, 2)[:60]}"
        if self.after(o):
            return None
        if args.get("**") is not None:
            return None
        return seen or f"no {ROLE.get(role, (role,))[0]}"


def opt(owner, k):
    return mk("opt", owner, k)


def C31(ctx):
    """Option-to-sink dataflow: every option is an opaque symbol whose appearance is required in the argument (of the right role) of each drawing, text, legend, tick, layout or rc call of the
    feature it documents, in every plot type that draws the feature; switches are compared between the two settings. A sink of the feature whose argument lacks the symbol is a violation."""
    full = ctx.tier == "thorough"

    # ------------------------------------------------------------------ style of what is drawn for a chain
    def kind(a):
        if a.name in ("contour", "contourf"):
            return a.name
        if a.name == "scatter":
            t = a.get("x")
            return "point" if t is not None and any(x.op == "col" and x.a[1] == "log_posterior" for x in leaves(t)) and any(x.op == "call" and short(x) in ("argmax", "idxmax", "nanargmax") for x in subterms(t)) else "cloud"
        if a.name in FILLS:
            return "fill"
        if a.name in LINES:
            return "line"
        return a.name

    def need(W, a, L, k, walk):
        o = W.sym.get(L, ())
        data = W.opts_of.get(L, {}).get("color_param") is not None
        c = [("color", "color")]
        if walk:
            return c if k in ("line", "cloud") else []
        if k == "contour":
            return [*c, ("lw", "linewidth"), ("ls", "linestyle"), ("zorder", "zorder"), *((r, s) for r, s in (("color", "shade_gradient"),) if s in o), *((("levels", q),) if (q := "sigmas") in o else ())]
        if k == "contourf":
            return [*c, ("alpha", "shade_alpha"), ("zorder", "zorder"), *((("color", "shade_gradient"),) if "shade_gradient" in o else ()), *((("levels", "sigmas"),) if "sigmas" in o else ())]
        if k == "cloud":
            return [("zorder", "zorder"), ("cmap", "cmap") if data else ("color", "color"), *((("x", "num_cloud"), ("y", "num_cloud")) if "num_cloud" in o else ())]
        if k == "point":
            return [*c, ("marker", "marker_style"), ("s", "marker_size"), ("alpha", "marker_alpha"), ("zorder", "zorder")]
        if k == "line":
            return [*c, ("ls", "linestyle"), ("lw", "linewidth"), ("zorder", "zorder"), *((("height", q) for q in ("histogram_relative_height", "power", "bins", "smooth", "kde") if q in o))]
        if k == "fill":
            return [*c, ("zorder", "zorder"), *((("height", q) for q in ("histogram_relative_height", "power", "bins", "smooth", "kde") if q in o)), *((("limits", "summary_area"),) if "summary_area" in o else ())]
        if k == "errorbar":
            return c + ([("limits", "summary_area")] if "summary_area" in o else [])
        return []

    def atoms(W):
        return list(W.I.atoms)

    def style(run, s):
        if crashed(run, s):
            return
        W = run.W
        fig, lay, par = figure(W)
        F = Flow(W)
        work = list(panels(W)) if W.method != "free" else [((0, i), p, None) for i, p in enumerate(fig.panels.values())]
        for key, p, w in work:
            for a in p.artists:
                pos = set()
                for _, _, t in a.along():
                    pos |= labels_of(W, t)
                z = a.z()
                if z is not None:
                    pos |= labels_of(W, z)
                if len(pos) != 1 or truths_of(mk("list", tuple(a.terms()))):
                    continue
                L = next(iter(pos))
                k = kind(a)
                for role, q in need(W, a, L, k, W.method == "plot_walks"):
                    o = opt(L, q) if q != "sigmas" else opt(L, "sigma0")
                    s.ob(f"{k}: {q}")
                    if role in ("height", "x", "y", "limits"):
                        ts = [t for _, _, t in a.along()] if role in ("height", "limits") else [a.get(role)]
                        if role == "limits" and any(mentions(t, o) for t in atoms(W)):
                            continue  # chosen by comparisons with the option
                        if not any(mentions(t, o) for t in ts if t is not None):
                            s.bad(f"{W.method}:{fnof(a)}:{a.name}:{q}", f"{run.name}: panel {key}: {a.name} of chain {L} does not depend on its {q}", a.site, stack=stack_txt(a))
                        continue
                    got = F.role(a.args, role, o)
                    if got is not None:
                        s.bad(f"{W.method}:{fnof(a)}:{a.name}:{q}", f"{run.name}: panel {key}: {a.name} of chain {L} does not use its {q} ({got})", a.site, stack=stack_txt(a))
                if W.opts_of.get(L, {}).get("smooth") == 0 and not isinstance(W.opts_of[L]["smooth"], SV):
                    s.ob(f"{k}: smoothing switched off")
                    if any(x.op == "call" and short(x) in ("gaussian_filter", "gaussian_filter1d", "uniform_filter") for t in [*(t for _, _, t in a.along()), *([z] if z is not None else [])] for x in subterms(t)):
                        s.bad(f"{W.method}:{fnof(a)}:{a.name}:smooth", f"{run.name}: panel {key}: {a.name} of chain {L} is smoothed although its smooth is 0", a.site, stack=stack_txt(a))
                if k in ("contour", "contourf") and z is not None:
                    for q in ("bins", "smooth", "kde", "power"):
                        if q in W.sym.get(L, ()):
                            s.ob(f"{k}: {q}")
                            if not mentions(z, opt(L, q)) and not any(mentions(t, opt(L, q)) for _, _, t in a.along()):
                                s.bad(f"{W.method}:{fnof(a)}:{a.name}:{q}", f"{run.name}: panel {key}: {a.name} of chain {L} does not depend on its {q}", a.site, stack=stack_txt(a))
        for p, e in fig.legends:
            h = e.d["kw"].get("handles", e.d["args"][0] if e.d["args"] else None)
            for x in (h.items if isinstance(h, VList) else h if isinstance(h, tuple) else ()):
                if not isinstance(x, ExtObj):
                    continue
                kw = {n: to_term(v) for n, v in x.meta.get("kw", {}).items()}
                lit = text_of(kw["label"])[1] if "label" in kw else ""
                ls = [L for L, n in W.names.items() if n in lit]
                if len(ls) != 1:
                    continue
                L = ls[0]
                o = W.opts_of.get(L, {})
                con, pt = o.get("plot_contour", True), o.get("plot_point", False)
                want = [("color", "color")]
                if con:
                    want += [("ls", "linestyle"), ("lw", "linewidth")]
                if pt:
                    want += [("marker", "marker_style"), ("s", "marker_size")]
                for role, q in want:
                    s.ob(f"legend: {q}")
                    got = F.role(kw, role, opt(L, q))
                    if got is not None and not any(isinstance(v, SV) and mentions(v.term, opt(L, q)) for v in x.attrs.values()):
                        s.bad(f"legend:{q}", f"{run.name}: the legend entry of chain {L} does not use its {q} ({got})", e.site)
        truths(run, s, W, F, work)

    # ------------------------------------------------------------------ truths
    def truths(run, s, W, F, work):
        for key, p, w in work:
            for a in p.artists:
                ts = truths_of(mk("list", tuple(t for _, _, t in a.along())))
                if len(ts) != 1:
                    continue
                T = next(iter(ts))
                i = int(T[1:]) - 1
                spec = W.tspec[i] if i < len(getattr(W, "tspec", ())) else {}
                if a.name == "scatter":
                    want = [("s", "marker_size"), ("marker", "marker"), ("color", "color"), ("alpha", "alpha"), ("zorder", "zorder"), ("edge", "edge_color"), ("lw", "marker_edge_width")]
                else:
                    want = [("color", "color"), ("lw", "line_width"), ("ls", "line_style"), ("alpha", "alpha"), ("zorder", "zorder")]
                for role, q in want:
                    if q in ("edge_color", "marker_edge_width") and spec.get("marker") == "x":
                        continue
                    s.ob(f"truth: {q}")
                    got = F.role(a.args, role, opt(T, q))
                    if got is not None:
                        s.bad(f"truth:{fnof(a)}:{a.name}:{q}", f"{run.name}: panel {key}: {a.name} of truth {T} does not use its {q} ({got})", a.site, stack=stack_txt(a))

    def syms(W, L, ks):
        if not hasattr(W, "sym"):
            W.sym = {}
        W.sym[L] = set(ks)
        wit = {"num_cloud": 500, "shade_gradient": 0.8, "histogram_relative_height": 0.7, "power": 2.0, "bins": 30, "smooth": 2, "kde": 1.3, "summary_area": 0.6}
        o = {}
        for k in ks:
            if k == "sigmas":
                o[k] = VList([W.opt(L, f"sigma{i}", float(i), kind="scalar") for i in range(3)])
            else:
                o[k] = W.opt(L, k, wit[k])
        return o

    TR = ({"A": 1, "B": 1}, {"A": 1, "B": 1, "marker": 1})
    SETS = [
        ("plain", {}, ("shade_gradient", "sigmas")),
        ("clouds and points", {"plot_cloud": True, "plot_point": True}, ("num_cloud", "shade_gradient", "sigmas")),
        ("clouds coloured by data", {"plot_cloud": True, "color_param": "K"}, ("num_cloud",)),
        ("points only", {"plot_point": True, "plot_contour": False}, ()),
        ("clouds only", {"plot_cloud": True, "plot_contour": False}, ("num_cloud",)),
        ("smoothed", {}, ("bins", "smooth", "power", "histogram_relative_height")),
        ("unsmoothed", {"smooth": 0}, ("bins", "power", "histogram_relative_height")),
        ("kde", {}, ("kde", "power", "histogram_relative_height")),
        ("grid", {"grid": True, "smooth": 0}, ("power", "histogram_relative_height")),
        ("grid smoothed", {"grid": True}, ("power", "histogram_relative_height", "sigmas")),
    ]
    for m in PLOTS:
        for n, o, ks in SETS:
            for err in ((False, True) if m == "plot_summary" else (False,)):
                for cfg in (({}, {"flip": True}, {"plot_hists": False}) if m == "plot" else ({},)):
                    kw = {"errorbar": True} if err else {"convolve": 6} if m == "plot_walks" else {}

                    def sc(W, m=m, o=o, ks=ks, kw=kw, cfg=cfg):
                        scene(W, m, opts=tuple({**o, **syms(W, f"X{i + 1}", ks)} for i in range(2)), truths=TR, kw=kw, cfg={**cfg, "show_legend": True})

                    ctx.queue(f"styles {m} {n}{' error bars' if err else ''}{' ' + str(cfg) if cfg else ''}", sc, style)
    # an option set to zero is still set
    ZERO = {"zorder": 0, "linewidth": 0.0, "marker_alpha": 0.0, "shade_gradient": 0.0}
    for m in PLOTS:
        for q in (*ZERO, "truths"):
            if m == "plot_summary" and q.startswith(("marker", "shade")):
                continue

            def zs(W, m=m, q=q):
                W.truth_wit = {"line_width": 0.0, "alpha": 0.0, "zorder": 0, "marker_size": 0.0, "marker_edge_width": 0.0} if q == "truths" else {}
                o = [{"plot_point": True, "plot_cloud": True, **syms(W, f"X{i + 1}", ("shade_gradient",)), **({q: W.opt(f"X{i + 1}", q, ZERO[q])} if q in ZERO else {})} for i in range(2)]
                scene(W, m, opts=tuple(o), truths=TR, cfg={"show_legend": True})

            ctx.queue(f"styles {m} zero {q}", zs, style)
    for stat in ("MAX", "MEAN", "CUMULATIVE", "MAX_SYMMETRIC", "MAX_SHORTEST", "MAX_CENTRAL", "HDI"):
        for m in ("plot", "plot_distributions", "plot_summary"):
            for err in ((False, True) if m == "plot_summary" else (False,)):

                def sc(W, m=m, stat=stat, err=err):
                    if stat not in W.cls("statistics.SummaryStatistic").members:
                        return
                    scene(W, m, cols=(("A", "B"),), opts=({"statistics": S(W, stat), **syms(W, "X1", ("summary_area",))},), kw={"errorbar": True} if err else {})

                def js(run, s, stat=stat):
                    if hasattr(run.W, "ret"):
                        style(run, s)

                ctx.queue(f"interval {m} {stat}{' error bars' if err else ''}", sc, js)
    for n, o, ks in SETS:

        def fr(W, o=o, ks=ks):
            oo = {**styles(W, "X1", 1), **o, **syms(W, "X1", ks)}
            ch = W.chain("chain z", label="X1", extra=("K",) if o.get("color_param") else (), **oo)
            W.method, W.columns, W.log_scales, W.blind, W.cols_of, W.names = "free", ["A", "B"], set(), set(), {"X1": {"A", "B"}}, {"X1": "chain z"}
            W.cfg, W.truths, W.flip, W.plot_hists, W.opts_of = {}, [], False, True, {"X1": {**o, **{k: 1 for k in ks}}}
            W.mark()
            free_plots(W, ch)

        ctx.queue(f"styles functions {n}", fr, style)
    ctx.flush()
    config(ctx)
    switches(ctx)
    arguments(ctx)
    ctx.flush()


SIZES = ("fontsize", "size", "fontdict", "prop", "fontproperties", "font_properties")


def sized(e):
    """terms giving the size of a text call"""
    tk = e.d.get("tkw") or {}
    return [tk[k] for k in SIZES if k in tk]


def blank(W, t):
    syms, lit = text_of(t)
    return not syms and not lit.strip()


def ext_terms(o):
    """arguments a matplotlib object was made with"""
    return [to_term(v) for v in list(o.meta.get("args") or []) + list((o.meta.get("kw") or {}).values())] if isinstance(o, ExtObj) and isinstance(o.meta, dict) else []


# ---------------------------------------------------------------------------------------------- plot configuration
def config(ctx):
    C = {"label_font_size": 13, "tick_font_size": 7, "contour_label_font_size": 6, "summary_font_size": 9, "max_ticks": 4, "spacing": 2.0, "dpi": 90, "watermark": "draft"}

    def text_size(run, s, W, F, where, calls, o, what, want):
        """the size in force after the calls is the option"""
        last = None
        for e in calls:
            ts = sized(e)
            if ts:
                last = ts
        s.ob(f"{want}: {what}")
        if last is not None and any(mentions(t, o) for t in last):
            return
        if F.after(o) and last is None:
            late = True
            for e in F.late:
                if any(mentions(t, o) for t in event_terms(e)) and getattr(e.obj, "kind", "") not in ("TickLabel",):
                    late = False
            if not late:
                return
        s.bad(f"{W.method}:{what}:{want}", f"{run.name}: {where}: the {what} does not use {want} ({'size ' + show(last[0], 2)[:60] if last else 'no size given'})", calls[-1].site)

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        fig, lay, par = figure(W)
        F = Flow(W)
        O = {k: opt("cfg", k) for k in C}
        for key, p, w in panels(W):
            if w.kind == "empty" or not p.visible and w.kind != "name":
                continue
            for k in "xy":
                calls = [e for n, t, e in p.texts if n == f"set_{k}label" or n == "set_label_text"]
                txt = [e for n, t, e in p.texts if n == f"set_{k}label" and not blank(W, t)]
                if txt:
                    text_size(run, s, W, F, f"panel {key}", [e for e in calls if e.name == f"set_{k}label"], O["label_font_size"], f"{k} axis label", "label_font_size")
            tit = [e for n, t, e in p.texts if n == "set_title" and not blank(W, t)]
            if tit:
                q = "label_font_size" if W.method == "plot_summary" else "summary_font_size"
                text_size(run, s, W, F, f"panel {key}", tit, O[q], "panel title", q)
            if w.kind == "name":
                tx = [e for n, t, e in p.texts if n in ("text", "annotate")]
                if tx:
                    text_size(run, s, W, F, f"row {key[0]}", tx, O["label_font_size"], "chain name", "label_font_size")
            for k in "xy":
                q = w.axis(k)
                if q not in ALLP or not p.visible or p.axis(k).shows != "major":
                    continue
                s.ob("tick_font_size: ticks")
                s.ob("max_ticks: ticks")
                if not ticks(W, p, k, O["tick_font_size"]):
                    s.bad(f"{W.method}:ticks:tick_font_size", f"{run.name}: panel {key}: the tick labels of the {k} axis do not use tick_font_size", "plotter")
                got = locator(W, p, k)
                if got is None:
                    s.bad(f"{W.method}:ticks:max_ticks", f"{run.name}: panel {key}: the number of ticks of the {k} axis is not limited to max_ticks", "plotter")
                elif not any(mentions(t, O["max_ticks"]) for t in got[0]):
                    s.bad(f"{W.method}:ticks:max_ticks", f"{run.name}: panel {key}: the ticks of the {k} axis are placed without max_ticks", got[1])
        for cb in fig.cbars:
            calls = [e for n, t, e in cb["texts"]]
            if calls:
                text_size(run, s, W, F, "colour bar", calls, O["label_font_size"], "colour bar label", "label_font_size")
        for p, e in fig.legends:
            s.ob("legend font size")
            tk = e.d.get("tkw") or {}
            ts = [tk[k] for k in SIZES if k in tk]
            want = W.legend_size
            if not any(mentions(t, want) for t in ts) and not F.after(want):
                s.bad("legend:fontsize", f"{run.name}: the legend does not use {want.a[1]} ({'size ' + show(ts[0], 2)[:60] if ts else 'no size given'})", e.site)
            for k in W.legend_keys:
                s.ob("legend keyword")
                v = tk.get(k)
                if v is None or not mentions(v, opt("legend", k)):
                    s.bad(f"legend:{k}", f"{run.name}: the legend is not given the configured {k} ({show(v, 2)[:60] if v is not None else 'absent'})", e.site)
        for key, p, w in panels(W):
            for e in p.events:
                if e.name == "clabel":
                    s.ob("contour_label_font_size: contour labels")
                    ts = sized(e)
                    if not any(mentions(t, O["contour_label_font_size"]) for t in ts) and not F.after(O["contour_label_font_size"]):
                        s.bad("clabel:size", f"{run.name}: panel {key}: the contour labels do not use contour_label_font_size ({'size ' + show(ts[0], 2)[:60] if ts else 'no size given'})", e.site)
        if W.method == "plot":
            adj = [e for e in W.events("ext") if e.name == "subplots_adjust"]
            grids = [to_term(e.d["kw"].get("gridspec_kw")) for e in W.events("subplots") if "kw" in e.d and e.d["kw"].get("gridspec_kw") is not None]
            for k in ("wspace", "hspace"):
                s.ob("spacing")
                if not any(mentions((e.d.get("tkw") or {}).get(k), O["spacing"]) for e in adj) and not any(mentions(t, O["spacing"]) for t in grids):
                    s.bad(f"spacing:{k}", f"{run.name}: the {k} between the panels does not use spacing", adj[-1].site if adj else "plotter")
        marks = [e for e in W.events("ext") if e.name in ("text", "annotate", "suptitle") and any(mentions(t, O["watermark"]) for t in event_terms(e))]
        s.ob("watermark")
        if not marks:
            s.bad(f"watermark:{W.method}", f"{run.name}: the configured watermark is not written on the figure", "watermark")
        for k in W.wm_keys:
            s.ob("watermark keyword")
            if marks and not any(mentions(t, opt("watermark kw", k)) for e in marks for t in event_terms(e)) and not F.after(opt("watermark kw", k)):
                s.bad(f"watermark:{k}", f"{run.name}: the watermark is written without the configured {k}", marks[0].site)
        if W.filename:
            for n, e in fig.saves:
                s.ob("dpi")
                v = (e.d.get("tkw") or {}).get("dpi")
                if not mentions(v, O["dpi"]):
                    s.bad(f"dpi:{W.method}", f"{run.name}: the figure is saved without the configured dpi", e.site)

    def ticks(W, p, k, o):
        for e in W.events("ext"):
            ob = e.obj
            if not any(mentions(t, o) for t in event_terms(e)):
                continue
            kind = getattr(ob, "kind", "")
            if kind == "TickLabel":
                par = ob.meta.get("parent")
                nm = ob.meta.get("axis", "")
                if isinstance(par, ExtObj) and par.kind == "Axis":
                    if par.meta.get("parent") is p.ax and par.meta.get("name") == f"{k}axis":
                        return True
                elif par is p.ax and f"_{k}" in nm:
                    return True
            elif e.name in ("tick_params", "set_tick_params"):
                if kind == "Axis" and ob.meta.get("parent") is p.ax and ob.meta.get("name") == f"{k}axis":
                    return True
                if ob is p.ax:
                    which = e.d["args"][0] if e.d["args"] else e.d["kw"].get("axis", "both")
                    if which in ("both", k):
                        return True
            elif e.name in ("set_xticklabels", "set_yticklabels") and ob is p.ax and f"_{k}" in e.name:
                return True
        for e in W.events("extcall"):
            if any(mentions(to_term(v), o) for v in list(e.d.get("args") or []) + list((e.d.get("kw") or {}).values())) and ("setp" in e.path or "tick_params" in e.path):
                return True
        return False

    def locator(W, p, k):
        got = None
        for e in p.events:
            ob = e.obj
            if getattr(ob, "kind", "") == "Axis" and ob.meta.get("name") == f"{k}axis" and e.name == "set_major_locator":
                a = e.d["args"][0] if e.d["args"] else next(iter(e.d["kw"].values()), None)
                got = (ext_terms(a), e.site)
            elif e.name == "locator_params":
                which = e.d["args"][0] if e.d["args"] else e.d["kw"].get("axis", "both")
                if which in ("both", k):
                    got = (list((e.d.get("tkw") or {}).values()), e.site)
            elif e.name == f"set_{k}scale":
                got = None
            elif e.name in (f"set_{k}ticks",):
                got = (event_terms(e), e.site)
        return got

    def sc(m, o, cfg, nch, kw, lk, wk, cols=None, wit={}):
        def go(W):
            c = {k: W.opt("cfg", k, wit.get(k, v)) for k, v in C.items()}
            W.legend_keys = [k for k in lk]
            W.wm_keys = [k for k in wk]
            W.legend_size = opt("legend", "fontsize") if "fontsize" in lk else opt("cfg", "label_font_size")
            if lk:
                c["legend_kwargs"] = VDict([(k, W.opt("legend", k, v)) for k, v in lk.items()])
            if wk:
                c["watermark_text_kwargs"] = VDict([(k, W.opt("watermark kw", k, v)) for k, v in wk.items()])
            c.update(cfg)
            scene(W, m, cols=cols or (("A", "B"),) * nch, cfg=c, opts=tuple({**o} for _ in range(nch)), kw=kw, filename="f.png")
        return go

    LK = ({}, {"loc": "lower left"}, {"loc": "center", "fontsize": 4, "frameon": True, "handlelength": 3.0, "labelspacing": 1.0, "ncols": 2, "markerfirst": False})
    WK = ({}, {"color": "red"}, {"color": "red", "alpha": 0.2, "weight": "light", "verticalalignment": "top"})
    for m in PLOTS:
        for n, o in (("", {}), ("labels and points", {"show_contour_labels": True, "plot_point": True}), ("coloured cloud", {"plot_cloud": True, "color_param": "K"}), ("cloud of a plotted parameter", {"plot_cloud": True, "color_param": "B"})):
            for nch in (1, 2):
                for j, cfg in enumerate(({"show_legend": True}, {"log_scales": ("A", "B"), "show_legend": True}, {"flip": True, "show_legend": True}, {"plot_hists": False, "show_legend": True})):
                    if m != "plot" and j > 1 or o.get("color_param") == "B" and (m != "plot" or nch == 1):
                        continue
                    cols = (("A", "B", "D"),) * nch if o.get("color_param") == "B" else None
                    ctx.queue(f"sizes {m} {n} {nch} chains {[x for x in cfg if x != 'show_legend']}", sc(m, o, cfg, nch, {}, LK[j % 3], WK[(j + nch) % 3], cols), judge)
        for lk in LK:
            for wk in WK:
                ctx.queue(f"keywords {m} {sorted(lk)} {sorted(wk)}", sc(m, {}, {"show_legend": True}, 2, {}, lk, wk), judge)
        # an option set to zero or to an empty text is still set
        for q in ("label_font_size", "tick_font_size", "contour_label_font_size", "summary_font_size", "spacing", "max_ticks"):
            for nch in (1, 2):
                ctx.queue(f"sizes {m} {q}=0 {nch} chains", sc(m, {"show_contour_labels": True}, {"show_legend": True, "plot_hists": True}, nch, {}, {}, {}, wit={q: 0.0 if q == "spacing" else 0}), judge)
        ctx.queue(f"keywords {m} falsy", sc(m, {}, {"show_legend": True}, 2, {}, {"fontsize": 0, "frameon": False, "borderaxespad": 0.0, "markerfirst": False}, {"alpha": 0.0}), judge)
        for cols in ((("A", "B", "D"), ("D", "B")), (("A",),), (("A", "B", "D"),)):
            ctx.queue(f"sizes {m} {cols}", sc(m, {}, {"show_legend": True, "log_scales": ("B",)}, len(cols), {}, {}, {}, cols), judge)
    ctx.queue("sizes plot_summary error bars", sc("plot_summary", {}, {}, 2, {"errorbar": True}, {}, {}), judge)
    ctx.queue("sizes plot_walks convolved", sc("plot_walks", {}, {}, 2, {"convolve": 5}, {}, {}), judge)
    ctx.queue("sizes plot_distributions wrapped", sc("plot_distributions", {}, {}, 2, {"col_wrap": 1}, {}, {}), judge)
    ctx.queue("sizes usetex", sc("plot", {}, {"usetex": True, "show_legend": True}, 2, {}, {}, {"color": "red"}), judge)

    def dist(W):
        ch = W.chain("chain z", label="X1", **styles(W, "X1", 1))
        W.cols_of, W.names, W.method = {"X1": {"A", "B"}}, {"X1": "chain z"}, "functions"
        c = {k: W.opt("cfg", k, v) for k, v in C.items() if k not in ("watermark",)}
        cfg = W.config(**c)
        pl = W.I.load("chainconsumer.plotting.contours").ns
        W.mark()
        for n, a, kw in (("plot_dist", ("A",), {"summary": True, "config": cfg}), ("plot_contour", ("A", "B"), {"config": cfg})):
            if n in pl:
                W.I.setattr(ch, "show_contour_labels", True) if hasattr(W.I, "setattr") else None
                W.I.call(pl[n], [W.I.lib.new_axes() if hasattr(W.I.lib, "new_axes") else ExtObj("Axes", f"free {n}", meta={"row": 0, "col": 0, "nrows": 1, "ncols": 1}), ch, *a], kw)

    def djudge(run, s):
        if crashed(run, s):
            return
        W = run.W
        for e in W.events("ext"):
            q = {"set_title": "summary_font_size", "clabel": "contour_label_font_size"}.get(e.name)
            if q:
                s.ob(f"{q}: function")
                if not any(mentions(t, opt("cfg", q)) for t in sized(e)) and not Flow(W).after(opt("cfg", q)):
                    s.bad(f"functions:{e.name}:{q}", f"{run.name}: {e.name} does not use {q}", e.site)

    ctx.queue("sizes functions", dist, djudge)
    ctx.flush()


# ---------------------------------------------------------------------------------------------- switches
def switches(ctx):
    def ispoint(a):
        t = a.get("x")
        return t is not None and any(x.op == "col" and x.a[1] == "log_posterior" for x in leaves(t))

    def present(W, fig, what):
        arts = [(k, p, w, a) for k, p, w in panels(W) for a in p.artists]
        if what == "filled contours":
            return [a for k, p, w, a in arts if a.name == "contourf"]
        if what == "contours":
            return [a for k, p, w, a in arts if a.name == "contour"]
        if what == "shaded marginals":
            return [a for k, p, w, a in arts if a.name in FILLS and w.kind in ("hist", "summary")]
        if what == "marginals":
            return [a for k, p, w, a in arts if a.name in LINES and w.kind in ("hist", "summary")]
        if what == "points of the joint panels":
            return [a for k, p, w, a in arts if a.name == "scatter" and w.kind == "joint" and not truths_of(mk("list", tuple(a.terms()))) and ispoint(a)]
        if what == "clouds":
            return [a for k, p, w, a in arts if a.name == "scatter" and w.kind == "joint" and not truths_of(mk("list", tuple(a.terms()))) and not ispoint(a)]
        if what == "contour labels":
            return [e for e in W.events("ext") if e.name == "clabel"]
        if what == "summary titles":
            return [e for k, p, w in panels(W) for n, t, e in p.texts if n == "set_title" and not blank(W, t) and w.kind == "hist"]
        if what == "legend":
            return [e for p, e in fig.legends]
        if what == "coloured legend text":
            return [e for e in W.events("ext") if e.name in ("set_color", "set") and getattr(e.obj, "kind", "") == "text"] + [e for p, e in fig.legends if "labelcolor" in e.d["kw"]]
        if what == "coloured chain names":
            return [e for k, p, w in panels(W) if w.kind == "name" for n, t, e in p.texts if labels_of(W, (e.d.get("tkw") or {}).get("color", num_term()))]
        if what == "rotated ticks":
            return [e for e in W.events("ext") if e.name in ("set_rotation",) and getattr(e.obj, "kind", "") == "TickLabel" and not (e.d["args"] and e.d["args"][0] == 0) or e.name in ("tick_params", "set_tick_params", "set") and any(e.d["kw"].get(q) for q in ("rotation", "labelrotation"))]
        if what == "watermark":
            return [e for e in W.events("ext") if e.name in ("text", "annotate", "suptitle") and any(mentions(t, opt("cfg", "watermark")) for t in event_terms(e))]
        if what == "weight panel":
            return [k for k, p, w in panels(W) if any(x.op == "col" and x.a[1] == "weight" for a in p.artists for _, _, t in a.along() for x in leaves(t)) and not any(x.op == "col" and x.a[1] in ALLP for a in p.artists for _, _, t in a.along() for x in leaves(t))]
        if what == "posterior panel":
            return [k for k, p, w in panels(W) if any(x.op == "col" and x.a[1] == "log_posterior" for a in p.artists for _, _, t in a.along() for x in leaves(t))]
        if what == "convolved walks":
            return [a for k, p, w, a in arts if a.name in LINES]
        if what == "logarithmic weights":
            return [a for k, p, w, a in arts for _, r, t in a.along() if any(x.op == "call" and short(x) in ("log10", "log") for x in subterms(t)) and any(x.op == "col" and x.a[1] == "weight" for x in leaves(t))]
        if what == "error bars":
            return [a for k, p, w, a in arts if a.name == "errorbar"]
        raise AssertionError(what)

    def case(name, m, nch, opts, cfg, kw, wants):
        def go(W):
            c = {k: v(W) if callable(v) else v for k, v in cfg.items()}
            scene(W, m, cols=(("A", "B"),) * nch, opts=tuple({"statistics": S(W, "MEAN"), **opts} for _ in range(nch)), cfg=c, kw=kw)

        def judge(run, s):
            if crashed(run, s) or not run.base:
                return
            W = run.W
            fig, lay, par = figure(W)
            for what, want in wants.items():
                s.ob(f"switch: {what}")
                got = present(W, fig, what)
                if want and not got:
                    s.bad(f"{m}:{what}:missing", f"{run.name}: no {what}", "plotter")
                elif not want and got:
                    s.bad(f"{m}:{what}:unwanted", f"{run.name}: {what} although switched off", getattr(got[0], "site", None) or "plotter")

        ctx.queue(f"switch {m} {nch} chains {name}", go, judge)

    MARG = ("plot", "plot_distributions", "plot_summary")
    wm = {"watermark": lambda W: W.opt("cfg", "watermark", "draft")}
    for nch in (1, 2):
        for con in (True, False):
            for pt in (True, False):
                for cl in (True, False):
                    if con or pt or cl:
                        case(f"contour={con} point={pt} cloud={cl}", "plot", nch, {"plot_contour": con, "plot_point": pt, "plot_cloud": cl}, {}, {},
                             {"contours": con, "filled contours": con, "marginals": con, "shaded marginals": con, "points of the joint panels": pt, "clouds": cl})
        for sh, al in ((True, 0.4), (False, 0.4), (True, 0.0), (False, 0.0)):
            case(f"shade={sh} shade_alpha={al}", "plot", nch, {"shade": sh, "shade_alpha": al}, {}, {}, {"contours": True, "filled contours": sh and al > 0, "shaded marginals": True})
        for on in (True, False):
            for m in MARG:
                case(f"bar_shade={on}", m, nch, {"bar_shade": on}, {}, {}, {"marginals": True, "shaded marginals": on})
                case(f"bar_shade={on} shade={not on}", m, nch, {"bar_shade": on, "shade": not on}, {}, {}, {"shaded marginals": on})
            case(f"show_contour_labels={on}", "plot", nch, {"show_contour_labels": on}, {}, {}, {"contour labels": on})
            case(f"legend_color_text={on}", "plot", nch, {}, {"legend_color_text": on, "show_legend": True}, {}, {"legend": True, "coloured legend text": on})
            case(f"legend_color_text={on}", "plot_summary", nch, {}, {"legend_color_text": on}, {}, {"coloured chain names": on})
            for m in ("plot", "plot_distributions"):
                case(f"diagonal_tick_labels={on}", m, nch, {}, {"diagonal_tick_labels": on}, {}, {"rotated ticks": on})
                if nch == 1:
                    case(f"summarise={on}", m, nch, {}, {"summarise": on}, {}, {"summary titles": on})
            for m in PLOTS:
                case(f"watermark={on}", m, nch, {}, wm if on else {}, {}, {"watermark": on})
            case(f"weights={on}", "plot_walks", nch, {}, {}, {"plot_weights": on}, {"weight panel": on, "posterior panel": True})
            case(f"posterior={on}", "plot_walks", nch, {}, {}, {"plot_posterior": on}, {"weight panel": True, "posterior panel": on})
            case(f"convolve={on}", "plot_walks", nch, {}, {}, {"convolve": 7 if on else None}, {"convolved walks": on})
            case(f"log_weight={on}", "plot_walks", nch, {}, {}, {"log_weight": on}, {"logarithmic weights": on, "weight panel": True})
            case(f"errorbar={on}", "plot_summary", nch, {}, {}, {"errorbar": on}, {"marginals": not on, "shaded marginals": not on, "error bars": on})
        for on in (None, True, False):
            case(f"show_legend={on}", "plot", nch, {}, {"show_legend": on}, {}, {"legend": nch > 1 if on is None else on})
            case(f"show_legend={on} flip", "plot", nch, {}, {"show_legend": on, "flip": True}, {}, {"legend": nch > 1 if on is None else on})
            case(f"show_legend={on} no histograms", "plot", nch, {}, {"show_legend": on, "plot_hists": False}, {}, {"legend": nch > 1 if on is None else on})

    # where the legend goes
    def loc(W, at, n):
        scene(W, "plot", cols=(("A", "B", "D")[:n],) * 2, cfg={"legend_location": at, "show_legend": True})

    def lj(at, n):
        def judge(run, s):
            if crashed(run, s):
                return
            fig, lay, par = figure(run.W)
            s.ob("legend_location")
            want = (at[0] % n, at[1] % n)
            got = [(p.row, p.col) for p, e in fig.legends if p is not None]
            if got != [want]:
                s.bad("legend_location", f"{run.name}: the legend is in panel {got}, requested {want}", fig.legends[0][1].site if fig.legends else "plotter")
        return judge

    for n in (2, 3):
        for at in [(i, j) for i in range(-n, n) for j in range(-n, n)]:
            ctx.queue(f"legend_location={at} {n} parameters", lambda W, at=at, n=n: loc(W, at, n), lj(at, n))
    ctx.flush()


def num_term():
    return mk("c", None)


# ---------------------------------------------------------------------------------------------- arguments of the plotting calls
def arguments(ctx):
    def go(m, kw, n=2):
        def f(W):
            k = {q: (W.opt("arg", q, v) if not isinstance(v, tuple) else tuple(W.opt("arg", f"{q}{i}", x) for i, x in enumerate(v))) for q, v in kw.items()}
            scene(W, m, cols=(("A", "B", "D")[:n],) * 2, kw=k)
        return f

    def judge(m, kw):
        def j(run, s):
            if crashed(run, s):
                return
            W = run.W
            subs = W.events("subplots")
            if not subs:
                s.undecided(f"{run.name}: no figure")
                return
            e = subs[0]
            fs = e.d.get("kw", {}).get("figsize")
            ft = to_term(fs) if fs is not None else None
            late = [t for x in W.events("ext") if x.name in ("set_size_inches", "set_figwidth", "set_figheight") for t in event_terms(x)]
            for q, v in kw.items():
                if q == "convolve":
                    s.ob("convolve")
                    if not any(mentions(t, opt("arg", "convolve")) for k, p, w in panels(W) for a in p.artists for _, _, t in a.along()):
                        s.bad("convolve", f"{run.name}: nothing drawn depends on the width of the smoothing filter", e.site)
                    continue
                for i in range(len(v)) if isinstance(v, tuple) else (None,):
                    o = opt("arg", q if i is None else f"{q}{i}")
                    s.ob(f"figure size: {q}")
                    if not mentions(ft, o) and not any(mentions(t, o) for t in late):
                        s.bad(f"{m}:{q}", f"{run.name}: the size of the figure does not depend on {q}", e.site)
                if q == "figsize" and isinstance(v, tuple) and isinstance(fs, (tuple, VList)):
                    it = list(fs.items) if isinstance(fs, VList) else list(fs)
                    s.ob("figure size given")
                    if [to_term(x) for x in it] != [opt("arg", "figsize0"), opt("arg", "figsize1")]:
                        s.bad(f"{m}:figsize order", f"{run.name}: the figure is made with size {[show(to_term(x), 2)[:40] for x in it]} instead of the requested one", e.site)
        return j

    for m, kws in {
        "plot": ({"figsize": (6.0, 4.0)}, {"figsize": 2.0}),
        "plot_walks": ({"figsize": (6.0, 4.0)}, {"figsize": 5.0}, {"convolve": 6}),
        "plot_distributions": ({"figsize": (6.0, 4.0)}, {"figsize": 2.0}),
        "plot_summary": ({"figsize": 2.0}, {"extra_parameter_spacing": 1.5}, {"extra_parameter_spacing": 0.0}, {"vertical_spacing_ratio": 2.0}, {"figsize": 2.0, "extra_parameter_spacing": 0.5, "vertical_spacing_ratio": 0.7}),
    }.items():
        for kw in kws:
            for n in (1, 2, 3):
                ctx.queue(f"arguments {m} {sorted(kw)} {'pair' if any(isinstance(v, tuple) for v in kw.values()) else ''} {n} parameters", go(m, kw, n), judge(m, kw))
    ctx.flush()


RULES = {"C31": C31}
