"""What identifies a sample table's content: rows in order, columns by role (C37)."""
from __future__ import annotations

from common import *  # noqa: F403
from rules_state import diff, signature
from scen import World
from values import SV, VDict, VFrame, VList

# how a table is presented; the samples, weights and log posteriors in it are the same
VARIANTS = {
    "plain": {},
    "row labels of a filtered table": {"index": "any"},
    "row labels repeat (concatenated tables)": {"index": "dup"},
    "weight and log posterior columns first": {"front": True},
    "weight and log posterior columns between the parameters": {"between": True},
    "weight and log posterior columns under other names": {"names": ("w", "logp")},
    "other names, in front, repeated row labels": {"names": ("posterior", "weight2"), "front": True, "index": "dup"},
}


def table(W, label, cols, v, weight=True, posterior=True, extra=()):
    f = W.table(label, cols, weight=weight, posterior=posterior, index=v.get("index", "range"), extra=extra, rows="n")
    wn, pn = v.get("names", ("weight", "log_posterior"))
    special = [n for n in ("weight", "log_posterior") if n in f.cols]
    par = [n for n in f.cols if n not in special]
    if v.get("front"):
        order = special[::-1] + par
    elif v.get("between"):
        order = []
        sp = list(special)
        for n in par:
            order.append(n)
            if sp:
                order.append(sp.pop(0))
        order += sp
    else:
        order = par + special
    ren = {"weight": wn, "log_posterior": pn}
    g = VFrame({ren.get(n, n): f.cols[n] for n in order}, f.nrows, index=f.index)
    g.owner = f.owner
    for x in g.cols.values():
        x.base = g
        x.lab = g.index if g.index != "range" else None
    return g


def build(W, v, o1, o2, cols2=("B", "A", "C"), weight=True, posterior=True, config=None, extra1=()):
    wn, pn = v.get("names", ("weight", "log_posterior"))
    nm = {**({"weight_column": wn} if weight else {}), **({"posterior_column": pn} if posterior else {})} if "names" in v else {}
    base = {"walkers": 2, "num_free_params": 2, "num_eff_data_points": 30.0, **nm}
    ch = []
    for lab, cols, o, ex in (("X1", ("A", "B"), o1, extra1), ("X2", cols2, o2, ())):
        o = {k: (S(W, x) if k == "statistics" else x) for k, x in o.items()}
        ch.append(W.chain(lab, label=lab, table=table(W, lab, cols, v, weight, posterior, ex), **{**base, **o}))
    ts = [W.truth({"A": W.opt("truth1", "A", kind="scalar"), "B": W.opt("truth1", "B", kind="scalar")}, name="T1")]
    W.truths = ts
    cc = W.consumer(*ch, config=W.config(**config) if config else None, truths=ts)
    return cc, tuple(ch)


OPTS = (
    ("default", {}, {}, {}),
    ("cloud, points, smoothing", {"plot_cloud": True, "plot_point": True, "color_param": "K", "smooth": 0}, {"kde": 1.0, "plot_point": True, "statistics": "HDI"}, {"extra1": ("K",)}),
    ("unweighted", {"plot_cloud": True, "plot_point": True, "shift_params": True}, {"kde": 1.0, "statistics": "MEAN"}, {"weight": False}),
    ("no posterior", {"grid": True}, {"statistics": "HDI", "multimodal": True}, {"posterior": False, "config": {"sigma2d": True, "plot_hists": True, "summarise": True}}),
)


def pieces(W, cc, ch):
    """what divide gives, by role"""
    out = []
    for x in W.I.iterate(W.call(ch[0], "divide")):
        cols = list(W.I.iterate(W.attr(x, "data_columns")))
        d = [(str(n), W.call(x, "get_data", n)) for n in cols] + [("weight:", W.attr(x, "weights")), ("log posterior:", W.attr(x, "log_posterior"))]
        out.append(VList([W.attr(x, "name"), VList(cols), VDict(d)]))
    return VList(out)


def C37(ctx):
    """Two abstract consumers whose tables hold the same columns and rows, presented differently (row labels, column order, names of the weight and
    log posterior columns), are driven through every reading call; results and every drawing effect must be the identical def-use terms. Positional
    and label-based access to rows, and alignment on assignment, are distinguished in the terms."""
    calls = [(n, f) for n, f in readonly_calls() if n not in ("chain.divide", "consumer.get_chain")] + [("chain.divide", pieces)]
    for a in ("data_columns", "plotting_columns", "weights", "log_posterior", "data_samples"):
        calls.append((f"chain.{a}", lambda W, cc, ch, a=a: W.attr(ch[0], a)))

    def judge(run, s):
        for tag, a, b in getattr(run.W, "pairs", []):
            s.ob("result pairs compared")
            d = diff(a, b)
            if d is not None:
                s.bad(f"{tag}:{run.name.split('/')[-1]}", f"{run.name}: {tag}: {d[0]} differs from what the same samples give otherwise", d[1] or run.name)

    for vn, v in VARIANTS.items():
        if not v:
            continue
        for on, o1, o2, kw in OPTS:
            for cn, fn in calls:
                def sc(W, fn=fn, v=v, o1=o1, o2=o2, kw=kw, vn=vn):
                    cc, ch = build(W, {}, o1, o2, **kw)
                    W.mark()
                    one = signature(W, lambda: fn(W, cc, ch))
                    W2 = World(policy=W.I.policy)
                    c2, h2 = build(W2, v, o1, o2, **kw)
                    W2.mark()
                    W.pairs = [(vn, one, signature(W2, lambda: fn(W2, c2, h2)))]

                if vn.startswith("other names") and on in ("default", OPTS[1][0]) or ctx.tier == "thorough":
                    ctx.explore(f"{on}/{cn}/{vn}", sc, judge, depth=1, limit=60)
                else:
                    ctx.queue(f"{on}/{cn}/{vn}", sc, judge)
    ctx.flush()


RULES = {"C37": C37}
