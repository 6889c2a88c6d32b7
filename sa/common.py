"""Shared scenario pieces."""
from __future__ import annotations

from terms import mk, c, leaves, subterms, num, Term
from values import *  # noqa: F403
from values import NOWIT, SV, VDict, VFrame, VList, VSet, Inst, ExtObj, Native, Func, Bound


def S(W, name):
    return W.cls("statistics.SummaryStatistic").members[name]


# every read-only public call: (name, fn(W, cc, chains) -> value)
def readonly_calls():
    out = []

    def add(name, fn):
        out.append((name, fn))

    for m in ("plot", "plot_distributions", "plot_summary", "plot_walks"):
        add(f"plotter.{m}", lambda W, cc, ch, m=m: W.call(W.attr(cc, "plotter"), m))
    add("plotter.plot[args]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot", chains=arg(W, VList([ch[0]])), columns=arg(W, VList(["A", "B"])), filename=arg(W, VList(["f1", "f2"]))))
    add("plotter.plot_distributions[args]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_distributions", chains=arg(W, VList(["X2"])), columns=arg(W, VList(["A"])), filename=arg(W, VList(["f1"]))))
    add("plotter.plot_summary[args]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_summary", chains=arg(W, VList(["X2", "X1"])), columns=arg(W, VList(["B", "A"])), filename="f1", errorbar=True))
    add("plotter.plot_walks[args]", lambda W, cc, ch: W.call(W.attr(cc, "plotter"), "plot_walks", chains=arg(W, VList(["X1"])), columns=arg(W, VList(["A"])), filename="f1", convolve=10, plot_weights=True, log_weight=True, plot_posterior=True))
    add("analysis.get_latex_table", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_latex_table"))
    add("analysis.get_latex_table[args]", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_latex_table", chains=arg(W, VList(["X1"])), columns=arg(W, VList(["A", "B"])), transpose=True, filename="t.tex", blank_fill="-"))
    add("analysis.get_summary", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_summary"))
    add("analysis.get_summary[args]", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_summary", columns=arg(W, VList(["A"])), chains=arg(W, VList([ch[0]]))))
    add("analysis.get_summary[columns]", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_summary", columns=arg(W, VList(["B", "A"])), chains=arg(W, VList([ch[1], ch[0]]))))
    add("analysis.get_latex_table[columns]", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_latex_table", chains=arg(W, VList(["X2", "X1"])), columns=arg(W, VList(["B", "A"]))))
    add("analysis.get_max_posteriors", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_max_posteriors"))
    add("analysis.get_max_posteriors[args]", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_max_posteriors", chains=arg(W, VDict([("X1", ch[0])]))))
    for m in ("get_covariance_table", "get_correlation_table"):
        add(f"analysis.{m}", lambda W, cc, ch, m=m: W.call(W.attr(cc, "analysis"), m, ch[0], columns=arg(W, VList(["A", "B"]))))
        add(f"analysis.{m}[all]", lambda W, cc, ch, m=m: W.call(W.attr(cc, "analysis"), m, "X1"))
    add("analysis.get_parameter_summary", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_parameter_summary", ch[0], "A"))
    add("analysis.get_parameter_summary_mm", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_parameter_hdi_intervals", ch[0], "A"))
    add("analysis.get_parameter_multimodal_bounds", lambda W, cc, ch: W.call(W.attr(cc, "analysis"), "get_parameter_multimodal_bounds", ch[0], "A", W.call(W.attr(cc, "analysis"), "get_parameter_hdi_intervals", ch[0], "A")))
    for m, a in (("plot_contour", ("A", "B")), ("plot_cloud", ("A", "B")), ("plot_point", ("A", "B")), ("plot_dist", ("A",)), ("plot_surface", ("A", "B"))):
        add(f"{m}(axes, chain)", lambda W, cc, ch, m=m, a=a: free_draw(W, cc, ch, m, a))
    add("comparison.aic", lambda W, cc, ch: W.call(W.attr(cc, "comparison"), "aic"))
    add("comparison.bic", lambda W, cc, ch: W.call(W.attr(cc, "comparison"), "bic"))
    add("comparison.dic", lambda W, cc, ch: W.call(W.attr(cc, "comparison"), "dic"))
    add("comparison.comparison_table", lambda W, cc, ch: W.call(W.attr(cc, "comparison"), "comparison_table"))
    for m in ("gelman_rubin", "geweke"):
        add(f"diagnostic.{m}", lambda W, cc, ch, m=m: W.call(W.attr(cc, "diagnostic"), m))
        add(f"diagnostic.{m}[args]", lambda W, cc, ch, m=m: W.call(W.attr(cc, "diagnostic"), m, arg(W, VList(["X1", ch[1]]))))
        add(f"diagnostic.{m}[one]", lambda W, cc, ch, m=m: W.call(W.attr(cc, "diagnostic"), m, "X2"))
    for m in ("get_covariance", "get_correlation"):
        add(f"chain.{m}", lambda W, cc, ch, m=m: W.call(ch[0], m, columns=arg(W, VList(["A", "B"]))))
        add(f"chain.{m}[default]", lambda W, cc, ch, m=m: W.call(ch[1], m))
    add("chain.get_max_posterior_point", lambda W, cc, ch: W.call(ch[0], "get_max_posterior_point"))
    add("chain.get_data", lambda W, cc, ch: W.call(ch[0], "get_data", "A"))
    add("chain.divide", lambda W, cc, ch: W.call(ch[0], "divide"))
    add("consumer.get_names", lambda W, cc, ch: W.call(cc, "get_names"))
    add("consumer.get_chain", lambda W, cc, ch: W.call(cc, "get_chain", "X1"))
    return out


def free_draw(W, cc, ch, m, a):
    """a drawing function that is public on its own, given the user's chain"""
    f = W.I.load("chainconsumer.plotting").ns.get(m) or W.I.load("chainconsumer.plotting.contours").ns.get(m)
    cfg = cc.f.get("plotter") if isinstance(cc, Inst) else None
    cfg = W.attr(cfg, "config") if cfg is not None else W.config()
    ax = W.I.lib.new_axes() if hasattr(W.I.lib, "new_axes") else ExtObj("Axes", "free", meta={"row": 0, "col": 0, "nrows": 1, "ncols": 1})
    if m == "plot_surface":
        return W.I.call(f, [ax, arg(W, VList([ch[0]])), *a, cfg], {})
    if m == "plot_dist":
        return W.I.call(f, [ax, ch[0], *a], {"config": cfg, "summary": True})
    if m == "plot_contour":
        return W.I.call(f, [ax, ch[0], *a, cfg], {})
    return W.I.call(f, [ax, ch[0], *a], {})


def arg(W, v):
    W.own(v, "argument of the caller") if not isinstance(v, VDict) else setattr(v, "owner", "argument of the caller")
    for x in (v.items if isinstance(v, VList) else []):
        if isinstance(x, Inst):
            x.owner = f"chain {x.label}"
    return v


def std(W, config=None, override=None, truths=True, walkers=2, names=("X1", "X2"), opts1=None, opts2=None, cols2=("A", "B"), own=True, prefix="", extra1=(), rows=None):
    """two registered chains with weights and posteriors, a truth, optional configuration"""
    o = {"walkers": walkers, "num_free_params": 2, "num_eff_data_points": 30.0}
    c1 = W.chain(names[0], label=prefix + "X1", extra=extra1, rows=rows, **{**o, **(opts1 or {})})
    c2 = W.chain(names[1], label=prefix + "X2", cols=cols2, rows=rows, **{**o, **(opts2 or {})})
    ts = []
    if truths:
        ts = [W.truth({"A": W.opt("truth1", "A", kind="scalar"), "B": W.opt("truth1", "B", kind="scalar")}, name="T1")]
    W.truths = ts
    cfg = W.config(**config) if config is not None else None
    ov = None
    if override is not None:
        ov = W.I.instantiate(W.cls("chain.ChainConfig"), [], override)
    cc = W.consumer(c1, c2, config=cfg, truths=ts, override=ov)
    if own:
        for t in ts:
            W.own(t, "truth")
        if cfg is not None:
            W.own(cfg, "plot configuration")
        if ov is not None:
            W.own(ov, "override")
        cc.owner = "consumer"
        for n in ("_chains", "_truths"):
            v = cc.f.get(n)
            if v is not None:
                v.owner = "consumer registry"
    return cc, (c1, c2)


def stack_txt(e):
    return " > ".join(e.stack[-5:])
