from __future__ import annotations

from common import *  # noqa: F403
from common import readonly_calls, std, stack_txt, S
from terms import mk, c, leaves, subterms, num, show
from values import *  # noqa: F403


def worlds_c01():
    """configurations in which every read-only call is analysed"""
    out = [("default", lambda W: std(W))]
    out.append(("config", lambda W: std(W, config={
        "labels": VDict([("A", "$a$")]), "extents": VDict([("A", (0.0, 1.0))]), "blind": VList(["B", "unknown"]), "log_scales": VList(["A"]),
        "legend_kwargs": VDict([("loc", "best")]), "watermark": "wm", "watermark_text_kwargs": VDict([("color", "red")]), "legend_location": (0, 1),
        "usetex": True, "serif": True})))
    out.append(("override", lambda W: std(W, override={"bins": 30, "smooth": 0, "linewidth": 2.0, "color": "blue", "statistics": S(W, "HDI")}, config={"sigma2d": True, "flip": True, "show_legend": True})))
    out.append(("options", lambda W: std(W, opts1={"kde": 1.2, "plot_cloud": True, "color_param": "K", "plot_point": True, "show_contour_labels": True, "sigmas": VList([2.0, 1.0]), "shade_gradient": 2.0},
                                         opts2={"smooth": 0, "multimodal": True, "statistics": S(W, "HDI"), "power": 2.0, "bins": 20, "color": "red", "shift_params": True}, extra1=("K",))))
    out.append(("grid", lambda W: std(W, walkers=1, opts1={"grid": True}, opts2={"grid": True, "kde": 1.0})))
    return out


def C01(ctx):
    """Ownership and effect analysis by abstract interpretation: everything the user handed over or registered (chains, their tables and columns,
    option lists, truths, configuration, override, caller arguments, registries) carries an owner tag that follows aliases, views and shallow copies.
    Every read-only public call is interpreted in several configurations, flipping each condition site; any write (item/attribute assignment,
    in-place operator, mutating method) that reaches a tagged object is a violation."""
    calls = readonly_calls()

    def judge(run, s):
        evs = run.W.events()
        s.ob("calls analysed")
        for e in evs:
            if e.kind in ("mutate", "setattr"):
                s.ob("writes classified")
                ow = e.owner
                if ow:
                    if e.kind == "setattr" and str(ow).startswith("class"):
                        continue
                    what = e.d.get("how") or ("." + e.name + " =")
                    s.bad(f"{e.site[1]}:{ow.split()[0]}:{what}", f"{run.name}: {what} modifies {ow}", e.site, stack=stack_txt(e))
        if run.exc:
            s.ob("runs that stop with an exception")

    for wn, mkw in worlds_c01():
        for cn, fn in calls:
            def scen(W, mkw=mkw, fn=fn):
                cc, ch = mkw(W)
                W.mark()
                return fn(W, cc, ch)

            quick_skip = wn not in ("default", "options") and "[" in cn
            if ctx.tier == "quick" and quick_skip:
                continue
            ctx.explore(f"{wn}/{cn}", scen, judge, depth=1 if wn in ("default", "options") or ctx.tier == "thorough" else 0, limit=120 if ctx.tier == "quick" else 800)



# ---------------------------------------------------------------------------------------------- C02
def frames_share(f, table):
    """does table `f` use the buffers of `table`?"""
    n = 0
    while f is not None and n < 20:
        if f is table:
            return True
        f = f.alias if isinstance(f, VFrame) else None
        n += 1
    return False


def cols_share(f, table):
    ids = {id(v) for v in table.cols.values()}
    for k, v in f.cols.items():
        n = 0
        while isinstance(v, SV) and n < 20:
            if id(v) in ids:
                return k
            if v.base is table:
                return k
            v = v.base
            n += 1
    return None


def C02(ctx):
    """Ownership analysis: the caller's table and its columns carry an owner tag followed through aliases, views and shallow copies. Chains are built in
    every variant (weights present or not, shifted, custom column names, walkers, options) and used by every read-only call and divide; any write that
    reaches the tag is a violation, and so is a stored table that still shares buffers with the caller's."""
    variants = [
        ("plain", {}, {}), ("no weight", {"weight": False}, {}), ("shift", {}, {"shift_params": True}),
        ("shift no weight", {"weight": False}, {"shift_params": True}), ("no posterior", {"posterior": False}, {"plot_cloud": True, "color_param": "A"}),
        ("custom names", {"wname": "w8", "pname": "lnp"}, {"weight_column": "w8", "posterior_column": "lnp", "plot_point": True}),
        ("walkers shift", {}, {"walkers": 2, "shift_params": True}), ("indexed", {"index": "any"}, {"kde": 1.0}),
    ]

    def judge(run, s):
        s.ob("programs analysed")
        for e in run.I.events:
            if e.kind == "mutate":
                s.ob("writes classified")
                if str(e.owner or "").startswith("table"):
                    s.bad(f"{e.site[1]}:{e.how}", f"{run.name}: {e.how} writes to the table the caller passed in", e.site, stack=stack_txt(e))
        for ch, t in getattr(run.W, "built", []):
            f = run.W.attr(ch, "samples")
            s.ob("stored tables compared with the caller's")
            if not isinstance(f, VFrame):
                s.undecided("samples is not a table")
                continue
            if frames_share(f, t):
                s.bad("shared-table", f"{run.name}: the chain stores the caller's table (or a shallow copy of it)", "chainconsumer/chain.py")
            else:
                k = cols_share(f, t)
                if k is not None:
                    s.bad("shared-column", f"{run.name}: column {k} of the stored table is a view of the caller's column", "chainconsumer/chain.py")

    def build(W, tk, ck, lab="X1"):
        t = W.table(lab, **tk)
        ch = W.I.instantiate(W.cls("chain.Chain"), [], {"samples": t, "name": lab, **ck})
        ch.label = lab
        W.built = getattr(W, "built", []) + [(ch, t)]
        return ch

    for vn, tk, ck in variants:
        ctx.explore(f"build/{vn}", lambda W, tk=tk, ck=ck: (W.I.__setattr__("record", True), build(W, tk, ck)), judge, limit=120)
        if ck.get("walkers"):
            def div(W, tk=tk, ck=ck):
                W.I.record = True
                ch = build(W, tk, ck)
                return W.call(ch, "divide")
            ctx.explore(f"divide/{vn}", div, judge, limit=120)
        for cn, fn in readonly_calls():
            if "[" in cn or "divide" in cn:
                continue
            if ctx.tier == "quick" and vn not in ("shift", "no weight") :
                continue

            def scen(W, tk=tk, ck=ck, fn=fn):
                a = build(W, tk, ck)
                b = build(W, tk, ck, "X2")
                cc = W.consumer(a, b)
                W.mark()
                return fn(W, cc, [a, b])

            ctx.explore(f"{vn}/{cn}", scen, judge, depth=0 if ctx.tier == "quick" else 1, limit=200)


# ---------------------------------------------------------------------------------------------- C03
SIGK = {"ext", "extnew", "extset", "extcall", "subplots", "rc", "open"}


def canon(v):
    """comparable form of a value"""
    if isinstance(v, (list, tuple)):
        return tuple(canon(x) for x in v)
    if isinstance(v, VList):
        return ("list",) + tuple(canon(x) for x in v.items)
    if isinstance(v, VSet):
        return ("set", frozenset(canon(x) for x in v.d.values()))
    if isinstance(v, VDict):
        return ("dict",) + tuple((canon(k), canon(x)) for k, x in v.items())
    if isinstance(v, VFrame):
        return ("frame",) + tuple((k, canon(x)) for k, x in v.cols.items())
    if isinstance(v, Inst):
        return ("inst", v.cls.name) + tuple((k, canon(x)) for k, x in v.f.items() if k != "parent")
    if isinstance(v, SV):
        return v.term.id
    if isinstance(v, ExtObj):
        return ("ext", v.kind, v.ident)
    if isinstance(v, dict):
        return tuple((k, canon(x)) for k, x in v.items())
    if isinstance(v, (int, float, str, bool, type(None))):
        return repr(v)
    return type(v).__name__


def signature(W, fn):
    """perform a call; everything observable it does, in comparable form"""
    W.I.uid.clear()
    n0 = len(W.I.events)
    try:
        r = canon(fn())
    except PyExc as e:
        r = ("raises", e.cname)
    out = []
    for e in W.I.events[n0:]:
        if e.kind in SIGK:
            d = e.d
            out.append((e.kind, d.get("name") or d.get("key"), canon(d.get("obj")), canon(d.get("args")), canon(d.get("kw")), canon(d.get("value")), e.site))
    return r, out


def diff(a, b):
    """first difference of two signatures, None if equal"""
    if a[0] != b[0]:
        res = ("result", None)
    else:
        res = None
    for x, y in zip(a[1], b[1]):
        if x[:6] != y[:6]:
            return (f"{x[0]} {x[1]}", x[6])
    if len(a[1]) != len(b[1]):
        m = a[1] if len(a[1]) > len(b[1]) else b[1]
        x = m[min(len(a[1]), len(b[1]))]
        return (f"{x[0]} {x[1]}", x[6])
    return res


def C03(ctx):
    """Information-flow by abstract interpretation: (a) no call may read a source of ambient nondeterminism (clock, global or unseeded random state,
    environment, hash, id); (b) each call is interpreted, then every other call, then the same call again: results and drawing effects must be
    the identical terms; (c) likewise after reconfiguring versus on a fresh consumer, and for a second consumer with equally named chains;
    (d) interpreted with set iteration order reversed the results and effects must be the identical terms."""
    calls = readonly_calls()
    ALLOWED = ("from_covariance",)

    def ambient(run, s):
        for e in run.I.events:
            if e.kind == "ambient":
                if any(a in q for q in e.stack for a in ALLOWED):
                    continue
                s.bad(f"ambient:{e.site[1]}:{e.path}", f"{run.name}: depends on {e.path}", e.site, stack=stack_txt(e))
        s.ob("calls checked for ambient inputs")

    CFG = {"labels": VDict([("A", "$a$")]), "sigma2d": True, "plot_hists": True}

    def cmp_judge(run, s):
        ambient(run, s)
        for tag, a, b in getattr(run.W, "pairs", []):
            s.ob("result pairs compared")
            d = diff(a, b)
            if d is not None:
                s.bad(f"{tag}:{run.name.split('/')[-1]}", f"{run.name}: {tag}: {d[0]} differs", d[1] or run.name)

    def others(W, cc, ch):
        for cn, fn in calls:
            if "divide" in cn:
                continue
            try:
                fn(W, cc, ch)
            except PyExc:
                pass

    for cn, fn in calls:
        def repeat(W, fn=fn):
            cc, ch = std(W, own=False, config=CFG)
            W.mark()
            one = signature(W, lambda: fn(W, cc, ch))
            if ctx.tier == "thorough" or "plot" in cn or "summary" in cn or "table" in cn:
                W.I.max_steps = getattr(W.I, "max_steps", 0) * 4
            others(W, cc, ch)
            two = signature(W, lambda: fn(W, cc, ch))
            W.pairs = [("same call after other calls", one, two)]

        def reconf(W, fn=fn):
            cc, ch = std(W, own=False, config={"labels": VDict([("A", "first")]), "summarise": False})
            W.mark()
            signature(W, lambda: fn(W, cc, ch))
            ov = W.I.instantiate(W.cls("chain.ChainConfig"), [], {"linewidth": 3.0, "smooth": 0})
            W.call(cc, "set_plot_config", W.config(**CFG))
            W.call(cc, "set_override", ov)
            two = signature(W, lambda: fn(W, cc, ch))
            fresh = W.consumer(*ch, config=W.config(**CFG), truths=W.truths, override=ov)
            W.pairs = [("after reconfiguring versus fresh consumer", two, signature(W, lambda: fn(W, fresh, ch)))]

        def twins(W, fn=fn):
            cc, ch = std(W, own=False)
            W.mark()
            signature(W, lambda: fn(W, cc, ch))
            c2, h2 = std(W, own=False, prefix="twin ")
            two = signature(W, lambda: fn(W, c2, h2))
            c3 = W.consumer(*h2, truths=W.truths)
            removed = W.consumer(W.chain("Z", label="Z", num_free_params=5, num_eff_data_points=44.0, walkers=2), *h2, truths=W.truths)
            W.call(removed, "plotter") if False else None
            signature(W, lambda: fn(W, removed, h2))
            W.call(removed, "remove_chain", "Z")
            three = signature(W, lambda: fn(W, removed, h2))
            W.pairs = [("after a chain was removed versus never added", three, signature(W, lambda: fn(W, c3, h2)))]
            from scen import World

            W2 = World(policy=W.I.policy, set_order=1)
            c4, h4 = std(W2, own=False, prefix="twin ")
            W2.mark()
            W.pairs.append(("second consumer with equal names versus alone", two, signature(W2, lambda: fn(W2, c4, h4))))

        def order(W, fn=fn):
            cc, ch = std(W, own=False, config=CFG, cols2=("B", "C", "A"))
            W.mark()
            one = signature(W, lambda: fn(W, cc, ch))
            from scen import World

            W2 = World(policy=W.I.policy, set_order=-1)
            c2, h2 = std(W2, own=False, config=CFG, cols2=("B", "C", "A"))
            W2.mark()
            W.pairs = [("reversed set iteration order", one, signature(W2, lambda: fn(W2, c2, h2)))]

        deep = 1 if ctx.tier == "thorough" else 0
        def shapes(W, fn=fn):
            # chains of another consumer with the same names, options and number of rows but other samples
            o = {"opts1": {"kde": 1.0, "smooth": 2}, "opts2": {"kde": 1.0, "grid": False, "statistics": S(W, "HDI")}}
            cc, ch = std(W, own=False, rows="n", **o)
            W.mark()
            signature(W, lambda: fn(W, cc, ch))
            c2, h2 = std(W, own=False, prefix="other ", rows="n", **o)
            two = signature(W, lambda: fn(W, c2, h2))
            from scen import World

            W2 = World(policy=W.I.policy)
            o = {"opts1": {"kde": 1.0, "smooth": 2}, "opts2": {"kde": 1.0, "grid": False, "statistics": S(W2, "HDI")}}
            c3, h3 = std(W2, own=False, prefix="other ", rows="n", **o)
            W2.mark()
            W.pairs = [("samples of the same shape analysed before versus alone", two, signature(W2, lambda: fn(W2, c3, h3)))]

        for tag, sc in (("shapes", shapes), ("repeat", repeat), ("reconfigure", reconf), ("twins", twins), ("set-order", order)):
            ctx.queue(f"{tag}/{cn}", sc, cmp_judge)
            if deep:
                ctx.explore(f"{tag}/{cn}", sc, cmp_judge, depth=1, limit=60)
    ctx.flush()

    for i, kw in enumerate(({}, {"randomise_mean": True}, {"num_dimensions": 3, "num_points": 100})):
        def seeded(W, kw=kw):
            W.mark()
            one = signature(W, lambda: W.I.call(W.g("make_sample"), [], {"seed": 5, **kw}))
            W.pairs = [("same seed twice", one, signature(W, lambda: W.I.call(W.g("make_sample"), [], {"seed": 5, **kw})))]

        def zero(W, kw=kw):
            W.mark()
            W.I.call(W.g("make_sample"), [], {"seed": 0, **kw})

        ctx.explore(f"make_sample(seed)[{i}]", seeded, cmp_judge, limit=60)
        ctx.queue(f"make_sample(seed=0)[{i}]", zero, cmp_judge)
    ctx.flush()
    for cn, fn in calls:
        ctx.explore(f"ambient/{cn}", lambda W, fn=fn: fn(W, *std(W, opts1={"plot_cloud": True, "plot_point": True}, opts2={"kde": 1.0})), ambient,
                    depth=1 if "[" not in cn else 0, limit=80 if ctx.tier == "quick" else 600)



# ---------------------------------------------------------------------------------------------- C04
AUTO = {"bar_shade", "sigmas", "shade", "shade_alpha", "color"}


def option_table(W):
    """option -> (default, explicit value, override value)"""
    H = S(W, "HDI")
    return {
        "statistics": (S(W, "MAX"), H, S(W, "MEAN")), "summary_area": (0.6827, 0.5, 0.9), "sigmas": ([0, 1, 2], [1.0, 3.0], [2.0]),
        "color": (None, "#112233", "#445566"), "linestyle": ("-", "--", ":"), "linewidth": (1.0, 2.5, 0.5), "show_contour_labels": (False, True, True),
        "shade": (True, False, False), "shade_alpha": (0.5, 0.33, 0.11), "shade_gradient": (1.0, 2.0, 0.3), "bar_shade": (True, False, False),
        "multimodal": (False, True, True), "bins": (None, 17, 23), "kde": (False, 1.3, 0.7), "smooth": (None, 2, 5), "color_param": (None, "A", "B"),
        "cmap": ("viridis", "plasma", "magma"), "num_cloud": (10000, 500, 700), "plot_cloud": (False, True, True), "plot_contour": (True, False, False),
        "plot_point": (False, True, True), "marker_style": (".", "x", "o"), "marker_size": (10.0, 4.0, 7.0), "marker_alpha": (1.0, 0.4, 0.2),
        "zorder": (10, 3, 77), "shift_params": (False, True, True),
    }


def plain(v):
    if isinstance(v, (VList, tuple)):
        return tuple(plain(x) for x in (v.items if isinstance(v, VList) else v))
    if isinstance(v, SV):
        return ("term", v.term.id)
    if isinstance(v, EnumMember):
        return ("member", v.name)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return float(v)
    if isinstance(v, list):
        return tuple(plain(x) for x in v)
    return v


def inp(v):
    return VList(list(v)) if isinstance(v, list) else v


def final_chains(W, cc):
    """the chains as they reach the drawing code: name -> instance"""
    try:
        f = W.call(cc, "_get_final_chains")
        if isinstance(f, VDict) and all(isinstance(x, Inst) for x in f.values()):
            return {k: v for k, v in f.items()}
    except PyExc as e:
        if e.cname != "AttributeError":
            raise
    n0 = len(W.I.events)
    W.call(W.attr(cc, "plotter"), "plot")
    out = {}
    for e in W.I.events[n0:]:
        if e.kind == "call":
            for a in list(e.d.get("args", ())) + list((e.d.get("kw") or {}).values()):
                if isinstance(a, Inst) and a.cls.name == "Chain" and a.owner is None and isinstance(a.f.get("name"), str):
                    out[a.f["name"]] = a
    return out


def C04(ctx):
    """Constant propagation of every chain option through registration, automatic configuration and override to the chains that reach the drawing code,
    for all pairs (option set on chain, option set by override), compared with the precedence rule; plus a read audit: every option read
    by plotting or summary code on a chain must be the finally resolved value."""

    def mk_chain(W, name, **kw):
        return W.chain(name, label=name, **{k: inp(v) for k, v in kw.items()})

    def finals(W, specs, override=None):
        chs = [mk_chain(W, f"C{i}", **sp) for i, sp in enumerate(specs)]
        ov = None if override is None else W.I.instantiate(W.cls("chain.ChainConfig"), [], {k: inp(v) for k, v in override.items()})
        cc = W.consumer(*chs, override=ov)
        f = final_chains(W, cc)
        return [{o: plain(W.attr(f[f"C{i}"], o)) for o in option_table(W)} for i in range(len(specs))]

    site = "chainconsumer/chainconsumer.py"

    def extra(o):
        return {"statistics": "HDI"} if o == "multimodal" else {}

    def spec(W, o, v):
        d = {o: v}
        if o == "multimodal" and v is True:
            d["statistics"] = S(W, "HDI")
        if o == "statistics" and getattr(v, "name", "") == "HDI":
            pass
        return d

    def job(o):
        def scen(W):
            T = option_table(W)
            D, E, O = T[o]
            out = []
            base = finals(W, [{}, {}])
            # explicit kept, other chain as if alone
            ex = finals(W, [spec(W, o, E), {}])
            ex2 = finals(W, [{}, spec(W, o, E)])
            exd = finals(W, [{o: D}, {}]) if D is not None else None
            out.append(("explicit", o, ex[0][o], plain(E)))
            out.append(("explicit", o, ex2[1][o], plain(E)))
            if exd:
                out.append(("explicitly given default", o, exd[0][o], plain(D)))
            if o not in AUTO:
                out.append(("default", o, base[0][o], plain(D) if not o == "statistics" else plain(S(W, "MAX"))))
            for q in T:
                if q == o or (o == "multimodal" and q == "statistics"):
                    continue
                auto_dep = q in AUTO and o in ("plot_contour",)
                own_dep = q == "shade_alpha" and o == "show_contour_labels"
                if not auto_dep and not own_dep:
                    out.append((f"{o} set on the same chain", q, ex[0][q] if q != "color" else base[0][q], base[0][q]))
                if not auto_dep and not (q == "color" and o == "color"):
                    out.append((f"{o} set on an earlier chain", q, ex[1][q] if not (q == "color" and o == "color") else base[1][q], base[1][q]))
                    out.append((f"{o} set on a later chain", q, ex2[0][q], base[0][q]))
            if o not in ("plot_contour", "color"):
                out.append((f"{o} set on an earlier chain", o, ex[1][o], base[1][o]))
                out.append((f"{o} set on a later chain", o, ex2[0][o], base[0][o]))
            # override wins, touches nothing else
            for tag, v in (("override", O),) + ((("override with the default value", D),) if D is not None else ()):
                ovs = {o: v}
                r = finals(W, [spec(W, o, E), {}], ovs)
                out.append((tag + " over explicit", o, r[0][o], plain(v)))
                out.append((tag + " over automatic", o, r[1][o], plain(v)))
                for q in T:
                    if q == o:
                        continue
                    out.append((f"override of {o}", q, r[0][q], ex[0][q]))
                    out.append((f"override of {o}", q, r[1][q], ex[1][q]))
            W.out = out

        def judge(run, s):
            for tag, q, got, want in getattr(run.W, "out", []):
                s.ob("resolved option values compared")
                if got != want:
                    s.bad(f"{tag}:{q}", f"option {q} ({tag}) resolves to {got}, expected {want}", site)
            if run.exc:
                s.undecided(f"{o}: {run.exc}")

        return scen, judge

    names = list(option_table_names())
    for o in names:
        ctx.queue(f"option {o}", *job(o))
    ctx.flush()

    def pairs(W):
        """explicit option pairs under overrides of others: every explicitly set option survives"""
        T = option_table(W)
        out = []
        allE = {q: T[q][1] for q in T if q not in ("multimodal", "statistics")}
        allE["statistics"] = S(W, "HDI")
        allE["multimodal"] = True
        r = finals(W, [allE, {}])
        for q in allE:
            out.append(("all explicit", q, r[0][q], plain(allE[q])))
        for o in T:
            r = finals(W, [allE, {}], {o: T[o][2]})
            for q in allE:
                out.append((f"all explicit, override {o}", q, r[0][q], plain(T[o][2] if q == o else allE[q])))
        W.out = out

    def pj(run, s):
        for tag, q, got, want in getattr(run.W, "out", []):
            s.ob("resolved option values compared")
            if got != want:
                s.bad(f"pair:{q}", f"option {q} ({tag}) resolves to {got}, expected {want}", site)
        if run.exc:
            s.undecided(f"pairs: {run.exc}")

    ctx.base_only("all explicit", pairs, pj)

    def crowd(W):
        """automatic adjustments to the number of chains reach the chains that do not set the option"""
        few, many = finals(W, [{}]), finals(W, [{} for _ in range(8)])
        W.auto = [(q, few[0][q], [m[q] for m in many]) for q in ("bar_shade", "shade", "shade_alpha")]

    def cj(run, s):
        for q, a, bs in getattr(run.W, "auto", ()):
            s.ob("automatic values compared")
            if any(a == b for b in bs):
                s.bad(f"automatic:{q}", f"option {q}, not set by anyone, is {a} for one chain and still {bs[0]} on a chain among eight", site)
        if run.exc:
            s.undecided(f"crowd: {run.exc}")

    ctx.base_only("eight chains", crowd, cj)

    # read audit
    reads = [("plotter.plot", {"chains": 1}), ("plotter.plot_distributions", {"chains": 1}), ("plotter.plot_summary", {"chains": 1}), ("plotter.plot_walks", {"chains": 1}), ("analysis.get_latex_table", {"chains": 1}), ("plotter.plot", {}), ("plotter.plot_distributions", {}), ("plotter.plot_summary", {}), ("plotter.plot_walks", {}), ("analysis.get_latex_table", {}), ("analysis.get_summary", {})]
    for m, kw in reads:
        def scen(W, m=m, kw=kw):
            T = option_table(W)
            ov = {q: inp(T[q][2]) for q in ("linewidth", "linestyle", "smooth", "bins", "kde", "summary_area", "shade_alpha", "cmap", "zorder", "color", "statistics", "sigmas", "plot_point", "plot_cloud", "num_cloud", "marker_style", "marker_size", "marker_alpha", "shade_gradient", "color_param")}
            cc, ch = std(W, override=ov, opts1={"linewidth": 9.0, "bins": 11})
            W.final = {q: plain(T[q][2]) for q in ov}
            W.mark()
            W.I.reads = []
            o, me = m.split(".")
            return W.call(W.attr(cc, o), me, **({"chains": VList([ch[0], "X2"] if me != "get_latex_table" else ["X1", "X2"])} if kw else {}))

        def judge(run, s):
            fin = run.W.final
            for o, name, v, st, stack in run.I.reads or []:
                if o.cls.name == "Chain" and name in fin:
                    if st[0].split(".")[-1] in ("chainconsumer", "chain", "base"):
                        continue
                    s.ob("option reads audited")
                    if plain(v) != fin[name]:
                        s.bad(f"read:{st[1]}:{name}", f"{run.name}: {st[1]} reads {name}={plain(v)} instead of the overriding {fin[name]}", st, stack=" > ".join(stack[-4:]))

        ctx.explore(f"reads in {m}{" of chosen chains" if kw else ""}", scen, judge, limit=120)


def option_table_names():
    class _W:
        def cls(self, n):
            return type("M", (), {"members": {k: None for k in ("MAX", "HDI", "MEAN", "CUMULATIVE", "MAX_CENTRAL")}})

    return option_table(_W())


# ---------------------------------------------------------------------------------------------- C25
RCOK = {"text.usetex", "font.family"}


def C25(ctx):
    """Effect analysis of matplotlib's global settings: every write to rcParams (rc, rcParams[..], rcParams.update, use, style, rc_context) in every public
    call is enumerated; only text.usetex and font.family may be written, never when the configuration leaves that one unset, with the configured value,
    and after restore_rc_params the abstract rcParams state equals the state at consumer construction."""
    plots = [n for n in readonly_calls()]

    def judge(run, s):
        W = run.W
        s.ob("calls analysed")
        for e in run.I.events[W.rc0:]:
            if e.kind != "rc":
                continue
            s.ob("writes of matplotlib settings")
            if e.d.get("ctx"):
                continue
            if e.key not in RCOK:
                s.bad(f"key:{e.key}", f"{run.name}: writes matplotlib setting {e.key}", e.site, stack=stack_txt(e))
                continue
            if "restore" in " ".join(e.stack):
                continue
            cfg = W.cfgvals.get(e.key, "default")
            if cfg is None:
                s.bad(f"unset:{e.key}", f"{run.name}: writes {e.key} although the configuration leaves it unset", e.site, stack=stack_txt(e))
            elif cfg != "default" and plain(e.value) not in cfg and not isinstance(e.value, SV):
                s.bad(f"value:{e.key}", f"{run.name}: writes {e.key}={e.value!r}, configured {cfg}", e.site, stack=stack_txt(e))
        for e in run.I.events[W.rc0:]:
            if e.kind == "extset" and "rcParams" in str(e.d.get("obj")):
                s.bad("rcparams", f"{run.name}: writes rcParams", e.site)
        if hasattr(W, "restored"):
            for k, (old, new) in W.restored.items():
                s.ob("settings compared after restore")
                if to_id(old) != to_id(new):
                    s.bad(f"restore:{k}", f"{run.name}: after restoring, {k} is {new!r} instead of the value in force when the consumer was created", "chainconsumer/plotter.py")

    def to_id(v):
        return to_term(v).id

    for u, su in ((True, True), (False, False), (None, None), (True, None), (None, True)):
        cv = {"text.usetex": None if u is None else (u,), "font.family": None if su is None else (("serif",) if su else ("sans-serif",))}
        cv["font.family"] = cv["font.family"] and tuple(cv["font.family"]) + ((("serif",),) if su else (("sans-serif",),))
        for cn, fn in plots + [("plotter.plot[watermark]", plots[0][1]), ("plotter.plot_walks[watermark]", plots[3][1])]:
            if not cn.startswith("plotter") and (u, su) != (None, None):
                continue
            if ctx.tier == "quick" and "[" in cn and (u, su) not in ((None, None), (True, True)):
                continue

            def scen(W, fn=fn, u=u, su=su, cv=cv, cn=cn):
                W.rc0 = len(W.I.events)
                W.cfgvals = cv
                more = {"watermark": "wm", "watermark_text_kwargs": VDict([("color", "red")]), "legend_kwargs": VDict([("loc", "best")]), "dpi": 200, "labels": VDict([("A", "$a$")]), "flip": True} if "watermark" in cn else {}
                cc, ch = std(W, config={"usetex": u, "serif": su, **more})
                W.mark()
                L = W.I.lib
                pre = {k: L.rc_get(k) for k in RCOK}
                r = fn(W, cc, ch)
                fn(W, cc, ch)
                W.call(W.attr(cc, "plotter"), "restore_rc_params")
                keys = set(L.rc) | RCOK
                W.restored = {k: (W.rc_init.get(k), L.rc_get(k)) for k in keys if k in W.rc_init}
                return r

            def wrap(W, scen=scen):
                L = W.I.lib
                W.rc_init = {k: L.rc_get(k) for k in ("text.usetex", "font.family", "font.size", "figure.dpi")}
                return scen(W)

            ctx.explore(f"usetex={u},serif={su}/{cn}", wrap, judge, depth=1 if (u, su) in ((True, True), (None, None)) or ctx.tier == "thorough" else 0, limit=60 if ctx.tier == "quick" else 300)

    def later(W):
        """a consumer created while other values are in force gets those back"""
        W.rc0 = len(W.I.events)
        W.cfgvals = {}
        L = W.I.lib
        a, _ = std(W, config={"usetex": True, "serif": True})
        W.mark()
        W.call(W.attr(a, "plotter"), "plot")
        W.rc_init = {k: L.rc_get(k) for k in ("text.usetex", "font.family")}
        b, _ = std(W, config={"usetex": False, "serif": False}, prefix="b")
        W.call(W.attr(b, "plotter"), "plot")
        W.call(W.attr(a, "plotter"), "plot_walks")
        W.call(W.attr(b, "plotter"), "restore_rc_params")
        W.call(W.attr(b, "plotter"), "restore_rc_params")
        W.restored = {k: (W.rc_init[k], L.rc_get(k)) for k in W.rc_init}

    ctx.explore("second consumer", later, judge, limit=60)


# ---------------------------------------------------------------------------------------------- C30
def C30(ctx):
    """Typestate of the registry: sequences of registry operations are interpreted on abstract chains; the abstract registry (names in order, chain
    identity per name), the raised errors and the identity of returned values are compared with the specification of an insertion-ordered unique map."""

    def scen(W):
        out = []

        def rec(name, ok):
            out.append((name, bool(ok)))

        def raises(f):
            try:
                f()
            except PyExc:
                return True
            return False

        a, b, d = W.chain("a", label="a"), W.chain("b", label="b", cols=("B", "C")), W.chain("c", label="c")
        a2 = W.chain("a", label="a2")
        cc = W.I.instantiate(W.cls("chainconsumer.ChainConsumer"), [], {})

        def names():
            return [x for x in W.I.iterate(W.call(cc, "get_names"))]

        rec("add_chain returns the consumer", W.call(cc, "add_chain", a) is cc)
        W.call(cc, "add_chain", b)
        W.call(cc, "add_chain", d)
        rec("names follow registration order", names() == ["a", "b", "c"])
        rec("adding a taken name fails", raises(lambda: W.call(cc, "add_chain", a2)))
        rec("a failed add leaves the registered chain in place", W.call(cc, "get_chain", "a") is a)
        rec("a failed add leaves the order", names() == ["a", "b", "c"])
        rec("adding the same chain twice fails", raises(lambda: W.call(cc, "add_chain", b)))
        rec("get_chain returns the registered chain", W.call(cc, "get_chain", "b") is b and W.call(cc, "get_chain", "c") is d)
        rec("fetching an unknown name fails", raises(lambda: W.call(cc, "get_chain", "zz")))
        rec("removing an unknown name fails", raises(lambda: W.call(cc, "remove_chain", "zz")))
        rec("a failed removal leaves the registry", names() == ["a", "b", "c"])
        stranger = W.chain("q", label="q")
        rec("removing an unregistered chain object fails", raises(lambda: W.call(cc, "remove_chain", stranger)))
        rec("remove_chain returns the consumer", W.call(cc, "remove_chain", "b") is cc)
        rec("removal by name removes that chain only", names() == ["a", "c"])
        rec("removed name can no longer be fetched", raises(lambda: W.call(cc, "get_chain", "b")))
        rec("removing a removed name fails", raises(lambda: W.call(cc, "remove_chain", "b")))
        W.call(cc, "add_chain", b)
        rec("a re-added chain goes last", names() == ["a", "c", "b"])
        rec("removal by object returns the consumer", W.call(cc, "remove_chain", d) is cc)
        rec("removal by object removes that chain only", names() == ["a", "b"] and W.call(cc, "get_chain", "a") is a and W.call(cc, "get_chain", "b") is b)
        rec("set_plot_config returns the consumer", W.call(cc, "set_plot_config", W.config()) is cc)
        ov = W.I.instantiate(W.cls("chain.ChainConfig"), [], {"linewidth": 2.0})
        rec("set_override returns the consumer", W.call(cc, "set_override", ov) is cc)
        rec("add_truth returns the consumer", W.call(cc, "add_truth", W.truth({"A": 1.0})) is cc)
        rec("add_marker returns the consumer", W.call(cc, "add_marker", VDict([("A", 1.0)]), "m") is cc)
        rec("add_marker registers under its name, last", names() == ["a", "b", "m"])
        rec("add_marker under a taken name fails", raises(lambda: W.call(cc, "add_marker", VDict([("A", 1.0)]), "a")))
        rec("a failed add_marker leaves the registered chain", W.call(cc, "get_chain", "a") is a and names() == ["a", "b", "m"])
        other = W.consumer()
        rec("consumers do not share a registry", not list(W.I.iterate(W.call(other, "get_names"))))
        W.call(other, "add_chain", d)
        rec("consumers do not share a registry (2)", names() == ["a", "b", "m"])
        # names that are close: exact key comparison
        for nm in ("A", "a ", "", "ab"):
            x = W.chain(nm, label="n" + nm)
            n0 = names()
            W.call(cc, "add_chain", x)
            rec(f"distinct name {nm!r} is a distinct key", names() == n0 + [nm] and W.call(cc, "get_chain", nm) is x)
        W.call(cc, "remove_chain", "ab")
        rec("removing one name keeps longer and shorter ones", names() == ["a", "b", "m", "A", "a ", ""])
        same = W.chain("b", label="same name as b")
        n0 = names()
        W.call(cc, "remove_chain", same)
        rec("removal by chain object goes by its name", names() == [q for q in n0 if q != "b"])
        W.call(cc, "remove_chain", "")
        rec("a chain with an empty name can be removed, alone", names() == ["a", "m", "A", "a "])
        W.call(cc, "remove_chain", "a")
        rec("removing a name keeps names it is the beginning of", names() == ["m", "A", "a "])
        W.out = out
        # registration order in default plots
        c3 = W.consumer(*[W.chain(n, label="o" + n) for n in ("z", "m", "a")])
        W.mark()
        W.order = {}
        for m in ("plot", "plot_distributions", "plot_summary", "plot_walks"):
            n0 = len(W.I.events)
            W.call(W.attr(c3, "plotter"), m)
            seen = []
            for e in W.I.events[n0:]:
                if e.kind != "ext" or e.name in ("subplots", "savefig"):
                    continue
                labs = {t.a[0] for x in list(e.d.get("targs") or ()) for t in leaves(x) if t.op == "col"}
                if len(labs) == 1:
                    l = next(iter(labs))
                    if l not in seen:
                        seen.append(l)
            W.order[m] = seen
        s = W.call(W.attr(c3, "analysis"), "get_summary")
        W.order["get_summary"] = ["o" + k for k in s.keys()] if isinstance(s, VDict) else None

    def judge(run, s):
        for n, ok in getattr(run.W, "out", []):
            s.check(ok, "registry facts", n, f"registry: {n} - does not hold", "chainconsumer/chainconsumer.py")
        for m, o in getattr(run.W, "order", {}).items():
            if o and len(o) >= 2:
                s.check(o == [x for x in ("oz", "om", "oa") if x in o], "plots whose chain order was checked", f"order:{m}", f"{m} handles chains in order {o} instead of registration order", "chainconsumer/plotter.py")
        if run.exc:
            s.undecided(str(run.exc))
            if run.base and not run.exc.implicit:
                s.bad("registry-crash", f"registry sequence stops with {run.exc}", "chainconsumer/chainconsumer.py")

    ctx.base_only("registry", scen, judge)


RULES = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C25": C25, "C30": C30}
