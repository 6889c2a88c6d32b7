"""Axis ranges (C34)."""
from __future__ import annotations

from types import SimpleNamespace

from calc import arg1, short
from common import *  # noqa: F403
from figs import Figure
from norm import WRAP, Norm
from rules_plot import ALLP, PLOTS, crashed, figure, labels_of, layout, panels, scene
from terms import Term, mk, num, show, subterms
from values import PyExc, VList, to_term


# ---------------------------------------------------------------------------------------------- C34
class Order:
    """what the path knows about the order of terms: min/max structure and the conditions taken"""

    def __init__(self, atoms):
        self.N = Norm()
        self.edges = {}  # a -> terms known to be at least a
        for t, v in atoms.items():
            if isinstance(t, Term) and t.op == "cmp" and t.a[0] == "<" and isinstance(t.a[1], Term) and isinstance(t.a[2], Term):
                a, b = (t.a[1], t.a[2]) if v else (t.a[2], t.a[1])
                self.edges.setdefault(bare(a).id, []).append(bare(b))

    def same(self, a, b):
        return a is b or self.N(a).same(self.N(b))

    def parts(self, t, which):
        """terms whose max (min) t is"""
        t = bare(t)
        if t.op == "pick" and t.a[0] == which:
            return [p for x in t.a[1] for p in self.parts(x, which)]
        if t.op == "call" and short(t) in ((which + "imum"), "f" + which):
            return [p for _, x in t.a[1][:2] for p in self.parts(x, which)]
        if t.op == "call" and short(t) in (which, "a" + which, "nan" + which):
            x = arg1(t)
            if isinstance(x, Term) and x.op == "call" and short(x) in ("array", "asarray", "list"):
                x = arg1(x)
            if isinstance(x, Term) and x.op == "list":
                return [p for y in x.a[0] for p in self.parts(y, which)]
        return [t]

    def leq(self, a, b, d=6):
        """a <= b on every input that takes this path"""
        a, b = bare(a), bare(b)
        if self.same(a, b):
            return True
        if d <= 0:
            return False
        pb = self.parts(b, "max")
        if len(pb) > 1:
            if any(self.leq(a, y, d - 1) for y in pb):
                return True
        pa = self.parts(a, "max")
        if len(pa) > 1:
            return all(self.leq(x, b, d - 1) for x in pa)
        pa = self.parts(a, "min")
        if len(pa) > 1 and any(self.leq(x, b, d - 1) for x in pa):
            return True
        pb = self.parts(b, "min")
        if len(pb) > 1:
            return all(self.leq(a, y, d - 1) for y in pb)
        return any(self.leq(x, b, d - 1) for x in self.edges.get(a.id, ()))


def bare(t):
    while True:
        if t.op == "call" and short(t) in WRAP and t.a[1]:
            t = arg1(t)
        elif t.op == "item" and isinstance(t.a[1], Term) and num(t.a[1]) is not None and isinstance(t.a[0], Term) and t.a[0].op == "list" and -len(t.a[0].a[0]) <= num(t.a[1]) < len(t.a[0].a[0]):
            t = t.a[0].a[0][int(num(t.a[1]))]
        else:
            return t


def lims(st):
    if st.lim is None:
        return None
    out = tuple(to_term(v) if not isinstance(v, Term) else v for v in st.lim)
    if any(isinstance(t, Term) and t.op == "c" and t.a[0] is None for t in out):
        return None
    return out


def point(a):
    """the marker at the best-fit sample"""
    t = a.get("x")
    return a.name == "scatter" and t is not None and any(x.op == "call" and short(x) in ("argmax", "idxmax", "argmin", "nanargmax") for x in subterms(t))


def heights(a):
    """density axis and heights of a marginal curve or histogram"""
    if a.name == "hist":
        w = a.get("weights")
        h = a.horizontal
        return (("y" if h == "vertical" else "x"), w) if w is not None and h in ("vertical", "horizontal") else None
    return None


def split(t):
    """constant factor and the rest"""
    k = 1.0
    t = bare(t)
    while t.op == "bin" and t.a[0] in ("*", "/"):
        a, b = t.a[1], t.a[2]
        if num(a) is not None and t.a[0] == "*":
            k, t = k * float(num(a)), bare(b)
        elif num(b) is not None and num(b):
            k, t = k * float(num(b)) if t.a[0] == "*" else k / float(num(b)), bare(a)
        else:
            break
    return k, t


def C34(ctx):
    """Every figure is drawn once with all its chains and once for each chain alone, in one interpretation. For each panel the limits set on a parameter axis are decomposed into their min/max
    structure and the comparisons taken on the path; the lower limit must be provably at most, the upper at least, the limit each drawn chain gets alone. On density axes the upper limit must be at
    least the maximum of every curve or histogram drawn in the panel, the lower limit not above zero; on step axes the limits must include the last step of every walk. All panels of a parameter
    must have one range."""
    full = ctx.tier == "thorough"

    def scen(W, method, **k):
        alone = k.pop("alone", True)
        scene(W, method, **k)
        W.ref = {}
        main = W.events()
        figure(W)
        if not alone:
            return
        for ch in W.selected:
            L = ch.label
            cols = [p for p in W.columns if p in W.cols_of[L]]
            if not cols or method == "plot" and not W.plot_hists and len(cols) < 2:
                continue
            n = len(W.events())
            kw = {**W.kw, "chains": VList([W.names[L]]), "columns": VList(list(cols))}
            try:
                W.call(W.attr(W.cc, "plotter"), method, **kw)
            except PyExc:
                continue
            fig = Figure(W, W.events()[n:])
            V = SimpleNamespace(columns=cols, method=method, plot_hists=W.plot_hists, flip=W.flip, shown=[L], kw=W.kw)
            W.ref[L] = (fig, layout(V, fig) if fig.grid else {})
        assert main is not None

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        O = Order(run.I.atoms)
        user = {p for p in (W.cfg.get("extents").d if W.cfg.get("extents") is not None else {})} if hasattr(W.cfg.get("extents"), "d") else set()
        seen = {}
        for k, p, w in panels(W):
            for ax in ("x", "y"):
                q = getattr(w, ax)
                st = p.axis(ax)
                L2 = lims(st)
                drawn = {}
                for a in p.artists:
                    for b, role, t in a.along():
                        if b == ax and role == "pos":
                            for L in labels_of(W, t):
                                drawn.setdefault(L, []).append((a, t))
                if q in ALLP:
                    if L2 is None:
                        if drawn:
                            s.ob("axes left to automatic scaling")
                        continue
                    if q in seen:
                        s.ob("axes of one parameter compared")
                        o = seen[q]
                        if not (O.same(o[0], L2[0]) and O.same(o[1], L2[1])):
                            s.bad(f"shared:{W.method}", f"{run.name}: panel {k}: the range of {q} differs from its range in another panel", st.limsite)
                    else:
                        seen[q] = L2
                    if q in W_user(W):
                        continue
                    parameter(run, s, W, O, k, q, ax, st, L2, drawn)
                elif q == "density" and L2 is not None:
                    density(run, s, W, O, k, ax, st, L2, p)
                elif q == "step" and L2 is not None:
                    step(run, s, W, O, k, ax, st, L2, drawn)

    def W_user(W):
        e = W.cfg.get("extents")
        return set(e.d) if hasattr(e, "d") else set()

    def parameter(run, s, W, O, k, q, ax, st, lim, drawn):
        for L, arts in sorted(drawn.items()):
            if L not in W.shown or L not in W.ref:
                continue
            fig, lay = W.ref[L]
            one = next((lims(fig.grid[kk].axis(b)) for kk, w2 in lay.items() for b in ("x", "y") if getattr(w2, b) == q and kk in fig.grid and lims(fig.grid[kk].axis(b)) is not None), None)
            if one is None:
                continue
            what = f"{run.name}: panel {k}: the range of {q}"
            if any(not point(a) for a, _ in arts) and O.same(*one):
                s.bad(f"empty:{W.method}", f"{what} for chain {L} alone is a single value although more than one point is drawn", st.limsite)
                continue
            for i, side in enumerate(("lower", "upper")):
                s.ob("chain ranges compared with the range of the figure")
                ok = O.leq(lim[0], one[0]) if i == 0 else O.leq(one[1], lim[1])
                if ok:
                    continue
                mine = {x for x in labels_of(W, one[i])}
                parts = O.parts(lim[i], "min" if i == 0 else "max")
                wrong = O.parts(lim[i], "max" if i == 0 else "min")
                if mine and not mine & labels_of(W, lim[i]):
                    s.bad(f"cover:{W.method}:{side}", f"{what}: its {side} limit takes no account of chain {L}, which is drawn there", st.limsite, limit=show(lim[i], 5))
                elif len(wrong) > 1 and any(O.same(x, one[i]) for x in wrong):
                    s.bad(f"cover:{W.method}:{side}", f"{what}: its {side} limit is the {'largest of the lower' if i == 0 else 'smallest of the upper'} limits of the chains", st.limsite, limit=show(lim[i], 5))
                elif len(parts) > 1 and any(O.same(x, one[1 - i]) for x in parts):
                    s.bad(f"cover:{W.method}:{side}", f"{what}: its {side} limit uses the other limit of chain {L}", st.limsite, limit=show(lim[i], 5))
                else:
                    s.undecided(f"{run.name}: {side} limit of {q}")

    def density(run, s, W, O, k, ax, st, lim, p):
        lo, hi = lim
        v = num(lo)
        if v is not None and v > 0:
            s.bad(f"floor:{W.method}", f"{run.name}: panel {k}: the density axis starts at {v}, above zero", st.limsite)
        kf, t = split(hi)
        for a in p.artists:
            h = None
            if a.name == "hist":
                h = heights(a)
            elif a.name in ("plot", "step"):
                x = a.get(ax)
                L = labels_of(W, x) if x is not None else set()
                h = (ax, x) if len(L) == 1 else None
            if h is None or h[0] != ax or h[1] is None:
                continue
            s.ob("drawn heights compared with the density range")
            top = mk("call", "numpy.max", (("a", bare(h[1])),))
            own = labels_of(W, h[1])
            if any(O.leq(top, y) for y in O.parts(t, "max")) or O.leq(top, t):
                if kf < 1:
                    s.bad(f"headroom:{W.method}", f"{run.name}: panel {k}: the density axis ends at {kf:g} of the tallest curve", st.limsite)
                continue
            if own and not own & labels_of(W, t):
                s.bad(f"heights:{W.method}", f"{run.name}: panel {k}: the density range takes no account of the curve of chain {sorted(own)[0]}", st.limsite, limit=show(hi, 4))
            elif O.leq(t, top) and not O.same(t, top):
                s.bad(f"heights:{W.method}", f"{run.name}: panel {k}: the density range ends below the tallest curve ({sorted(own)})", st.limsite, limit=show(hi, 4))
            elif any(short(x) == "max" and x.op == "call" and isinstance(arg1(x), Term) for x in O.parts(t, "max")):
                s.undecided(f"{run.name}: heights of chain {sorted(own)}")
            elif t.op == "call" and short(t) in ("min", "mean", "median") and isinstance(arg1(t), Term) and O.same(arg1(t), bare(h[1])):
                s.bad(f"heights:{W.method}", f"{run.name}: panel {k}: the density range ends at the {short(t)} of the curve", st.limsite, limit=show(hi, 4))
            else:
                s.undecided(f"{run.name}: density range {t.op}")

    def step(run, s, W, O, k, ax, st, lim, drawn):
        lo, hi = lim
        v = num(lo)
        if v is not None and v > 0:
            s.bad(f"floor:{W.method}", f"{run.name}: panel {k}: the walk axis starts at {v}", st.limsite)
        rows = {x.a[0] for x in subterms(hi) if isinstance(x, Term) and x.op == "nrows"}
        for a, t in [y for ys in drawn.values() for y in ys]:
            if a.name not in ("scatter", "plot") or not isinstance(t, Term):
                continue
            n = {x.a[0] for x in subterms(t) if isinstance(x, Term) and x.op == "nrows"}
            if not n:
                continue
            s.ob("walk lengths compared with the step range")
            if any(O.leq(mk("item", bare(t), mk("c", e)), hi) for e in (-1, -1.0)):
                continue
            if not n & rows and rows and not any(x.op in ("unk", "loop") for x in subterms(hi)):
                s.bad(f"steps:{W.method}", f"{run.name}: panel {k}: the step range takes no account of the length of chain {sorted(n)[0]}", st.limsite, limit=show(hi, 5))
            elif n & rows and len(rows) > 1:
                x = next(iter(n & rows))
                if not any(x in {z.a[0] for z in subterms(y) if z.op == "nrows"} for y in O.parts(hi, "max")) or len(O.parts(hi, "max")) == 1:
                    wrong = O.parts(hi, "min")
                    if len(wrong) > 1:
                        s.bad(f"steps:{W.method}", f"{run.name}: panel {k}: the step range ends with the shortest chain", st.limsite, limit=show(hi, 5))
                    else:
                        s.undecided(f"{run.name}: step range")

    two = (("A", "B"), ("A", "B"))
    cases = []
    for m in PLOTS:
        for nm, k in (("", {}), ("3 chains", {"cols": (("A", "B", "D"), ("B", "D"), ("A", "D"))}), ("unsmoothed", {"cols": two, "opts": ({"smooth": 0}, {"smooth": 0})}), ("kde", {"cols": two, "opts": ({"kde": 1.2}, {})}),
                      ("grid", {"cols": two, "opts": ({"grid": True}, {})}), ("points", {"cols": two, "opts": ({"plot_contour": False, "plot_point": True}, {})}), ("cloud", {"cols": two, "opts": ({}, {"plot_contour": False, "plot_cloud": True})}),
                      ("power", {"cols": two, "opts": ({"power": 2.0, "smooth": 0}, {})}), ("fixed range", {"cols": two, "ext": ("A",)}), ("log", {"cols": two, "cfg": {"log_scales": ("B",)}}), ("subset", {"cols": (("A", "B", "D"), ("B", "A"), ("D",)), "columns": ("D", "A"), "select": (1, 0)})):
            cases.append((f"{m} {nm}".strip(), m, k))
    cases += [("plot flipped", "plot", {"cfg": {"flip": True}}), ("plot flipped unsmoothed", "plot", {"cfg": {"flip": True}, "opts": ({"smooth": 0}, {"smooth": 0})}), ("plot no histograms", "plot", {"cols": (("A", "B", "D"),) * 2, "cfg": {"plot_hists": False}}),
              ("plot_summary error bars", "plot_summary", {"kw": {"errorbar": True}}), ("plot_walks parameters only", "plot_walks", {"kw": {"plot_weights": False, "plot_posterior": False}}), ("plot_walks convolved", "plot_walks", {"kw": {"convolve": 10}}),
              ("plot_distributions wrapped", "plot_distributions", {"cols": (("A", "B", "D"), ("A", "D")), "kw": {"col_wrap": 2}})]
    for nm, m, k in cases:
        ctx.queue(nm, lambda W, m=m, k=k: scen(W, m, **dict(k)), judge)
    ctx.flush()
    for m in PLOTS:
        ctx.explore(f"{m} conditions", lambda W, m=m: scen(W, m), judge, depth=2 if full else 1, limit=600 if full else 60)
        ctx.explore(f"{m} conditions, three chains unsmoothed", lambda W, m=m: scen(W, m, cols=(("A", "B"),) * 3, opts=({"smooth": 0},) * 3, alone=False), judge, depth=2 if full else 1, limit=600 if full else 60)


# ---------------------------------------------------------------------------------------------- C35
ELEMENTWISE = {"log10", "log", "sqrt", "exp", "abs", "asarray", "array", "to_numpy", "float", "negative", "log1p", "square"}


def slices(sel):
    """(start, stop, step) of a chain of slice selections, or None when a selection is not a slice"""
    out = []
    for k in sel:
        if not isinstance(k, Term) or k.op != "slice":
            return None
        out.append(k.a)
    return out


def isnone(t):
    return t is None or isinstance(t, Term) and t.op == "c" and t.a[0] is None


def C35(ctx):
    """Row-selection analysis: each array reaching a scatter call, a walk or a two-dimensional density estimate is abstracted to the rows of the chain it runs over (a chain plus the sequence of
    slices, masks, sorts applied). The arrays of one call must run over the same rows, and a walk over all rows in their order (or every k-th from the first), against consecutive step numbers."""
    from calc import TOP, Rows

    full = ctx.tier == "thorough"

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        R = Rows(lambda t: None)
        N = Norm()
        for k, p, w in panels(W):
            for a in p.artists:
                if a.name == "scatter":
                    got = {n: R(a.args[n]) for n in ("x", "y", "c", "s") if isinstance(a.args.get(n), Term)}
                    pair(run, s, k, a, got)
                if w.kind == "walk" and a.name in ("scatter", "plot"):
                    walkcheck(run, s, W, R, N, k, w, a)
                if a.z() is not None:
                    density2(run, s, R, k, a, a.z())

    def pair(run, s, k, a, got):
        real = {n: v for n, v in got.items() if v is not None}
        if any(v == TOP for v in real.values()):
            s.undecided(f"{run.name}: rows of {sorted(n for n, v in real.items() if v == TOP)}")
            return
        if len(real) < 2:
            return
        s.ob("arrays of one scatter call compared")
        x = real.get("x")
        for n, v in real.items():
            if x is not None and v != x:
                s.bad(f"rows:{n}:{a.name}", f"{run.name}: panel {k}: the {n} values of the points are taken from other rows than the x values ({describe(v)} against {describe(x)})", a.site)

    def describe(v):
        return f"{v[0]}" + "".join(f"[{show(q, 3)[:60]}]" if isinstance(q, Term) else f".{q}" for q in v[1])

    def density2(run, s, R, k, a, z):
        for x in subterms(z):
            if isinstance(x, Term) and x.op == "call" and short(x) in ("histogram2d", "vstack", "column_stack", "stack", "dstack"):
                A = dict(x.a[1])
                if short(x) == "histogram2d":
                    vs = {n: R(A[n]) for n in ("x", "y", "weights") if isinstance(A.get(n), Term)}
                else:
                    f = arg1(x)
                    vs = {str(i): R(y) for i, y in enumerate(f.a[0])} if isinstance(f, Term) and f.op == "list" else {}
                vs = {n: v for n, v in vs.items() if v is not None}
                if len(vs) < 2:
                    continue
                if TOP in vs.values():
                    s.undecided(f"{run.name}: rows of {short(x)}")
                    continue
                s.ob("arrays of one two-dimensional density compared")
                if len(set(vs.values())) > 1:
                    s.bad(f"rows:{short(x)}", f"{run.name}: panel {k}: {short(x)} pairs different rows: {', '.join(n + ' ' + describe(v) for n, v in vs.items())}", a.site)

    def walkcheck(run, s, W, R, N, k, w, a):
        x, y = a.get("x"), a.get("y")
        if x is None or y is None:
            return
        r = R(y)
        if a.name == "scatter":
            want = w.data or w.y
            if r is None:
                s.undecided(f"{run.name}: rows of a walk")
                return
            if r == TOP:
                if any(z.op == "call" and short(z) in ("sort", "sorted", "shuffle", "permutation", "choice", "convolve", "cumsum") for z in subterms(y)):
                    s.bad("walk order", f"{run.name}: panel {k}: the walk does not show the recorded values in their order: {show(y, 4)[:100]}", a.site)
                else:
                    s.undecided(f"{run.name}: rows of a walk")
                return
            s.ob("walks compared with the recorded samples")
            sl = slices(r[1])
            if sl is None:
                if any(q == "part" or isinstance(q, Term) and q.op in ("opt",) for q in r[1]):
                    s.undecided(f"{run.name}: selection of a walk")
                else:
                    s.bad("walk order", f"{run.name}: panel {k}: the walk of chain {r[0]} does not show the recorded samples in their order ({describe(r)})", a.site)
                return
            for b0, b1, st in sl:
                neg = num(st) is not None and num(st) < 0 or isinstance(st, Term) and st.op == "un" and st.a[0] == "-"
                if neg or not isnone(b0) and num(b0) != 0 or not isnone(b1):
                    s.bad("walk part", f"{run.name}: panel {k}: the walk of chain {r[0]} shows only part of the samples or reverses them ({describe(r)})", a.site)
                    return
            cols = [z for z in subterms(y) if z.op == "col" and z.a[0] == r[0]]
            base = mk("col", r[0], want, *cols[0].a[2:]) if cols else None
            inner = y
            for _ in range(8):
                if inner.op == "item" and isinstance(inner.a[1], Term) and inner.a[1].op == "slice":
                    inner = inner.a[0]
                elif inner.op == "call" and short(inner) in ("asarray", "array", "to_numpy", "float"):
                    inner = arg1(inner)
                else:
                    break
            # the value itself, up to the documented shift (posterior) or logarithm (weight)
            if base is not None and want in ALLP:
                if N(inner).same(N(base)):
                    s.ob("walk values")
                elif all(z.op != "unk" for z in subterms(y)) and rowlinear(inner, base):
                    s.bad("walk value", f"{run.name}: panel {k}: the walk of {want} shows {show(inner, 3)[:100]}, not the samples", a.site)
                else:
                    s.undecided(f"{run.name}: value of a walk")
            elif want == "log_posterior" and base is not None:
                d = N(inner).add(N(base).scale(-1))
                if R(mk("bin", "-", inner, base)) == (r[0], ()) and any(N.rowdep_mono(m) for m in d.n):
                    s.bad("walk value", f"{run.name}: panel {k}: the posterior walk shows {show(inner, 3)[:100]}, not the log posterior up to a constant", a.site)
                else:
                    s.ob("walk values")
            # step numbers
            steps(run, s, N, k, a, x, y, r)
        else:
            if not isinstance(x, Term) or not isinstance(y, Term):
                return
            conv = [z for z in subterms(y) if z.op == "call" and short(z) in ("convolve", "uniform_filter1d", "rolling")]
            if not conv:
                return
            s.ob("running averages compared with their steps")
            sx, sy = trail(x), trail(y)
            if sx != sy:
                s.bad("average steps", f"{run.name}: panel {k}: the running average is drawn at other steps than it was taken at ({show(x, 3)[:80]} against {show(y, 3)[:80]})", a.site)
            z = conv[0]
            A = dict(z.a[1])
            f = A.get("v", A.get("b"))
            mode = A.get("mode")
            if short(z) == "convolve":
                if mode is None or mode.op == "c" and mode.a[0] != "same":
                    s.bad("average mode", f"{run.name}: panel {k}: the running average is convolved with mode {show(mode, 1) if mode is not None else 'full'}: it is not aligned with its steps", a.site)
                f = next((v for q, v in z.a[1] if isinstance(v, Term) and any(y_.op == "call" and short(y_) in ("ones", "full", "repeat", "ones_like") for y_ in subterms(v)) and R(v) is None), f)
                if isinstance(f, Term) and f.op == "bin" and f.a[0] == "/" and isinstance(f.a[1], Term) and f.a[1].op == "call" and short(f.a[1]) == "ones":
                    n = arg1(f.a[1])
                    s.check(N(n).same(N(f.a[2])), "kernels of running averages", "average norm", f"{run.name}: panel {k}: the running average divides {show(n, 2)} values by {show(f.a[2], 2)}", a.site)
                elif isinstance(f, Term) and f.op == "call" and short(f) == "ones":
                    s.bad("average norm", f"{run.name}: panel {k}: the running average is a running sum", a.site)

    def rowlinear(t, base):
        return base in set(subterms(t))

    def trail(t):
        out = []
        while t.op == "item":
            out.append(t.a[1].id if isinstance(t.a[1], Term) else t.a[1])
            t = t.a[0]
        return out

    def steps(run, s, N, k, a, x, y, r):
        t = x
        if not (t.op == "call" and short(t) in ("arange", "linspace")):
            c = [z for z in subterms(t) if z.op == "call" and short(z) == "arange"]
            if len(c) != 1:
                s.undecided(f"{run.name}: steps of a walk")
                return
            t = c[0]
        if short(t) != "arange":
            s.undecided(f"{run.name}: steps of a walk")
            return
        A = dict(t.a[1])
        st, sp = A.get("start"), A.get("step")
        s.ob("step numbers of walks")
        if st is not None and num(st) not in (None, 0, 1):
            s.bad("walk steps", f"{run.name}: panel {k}: the steps start at {num(st)}", a.site)
        if sp is not None and num(sp) not in (None, 1):
            s.bad("walk steps", f"{run.name}: panel {k}: the steps advance by {num(sp)}", a.site)
        own = {z.a[0] for z in subterms(t) if z.op == "nrows"}
        if own and own != {r[0]}:
            s.bad("walk steps", f"{run.name}: panel {k}: the walk of chain {r[0]} is drawn against the steps of {sorted(own)}", a.site)

    two = (("A", "B"), ("A", "B"))
    cases = []
    for m, nm, k in (
        ("plot", "clouds", {"opts": ({"plot_cloud": True}, {"plot_cloud": True, "num_cloud": 50.0})}), ("plot", "coloured clouds", {"opts": ({"plot_cloud": True, "color_param": "K"}, {"plot_cloud": True, "color_param": "weight"})}),
        ("plot", "clouds coloured by posterior", {"cols": two, "opts": ({"plot_cloud": True, "color_param": "log_posterior", "plot_contour": False}, {})}), ("plot", "cloud and point", {"opts": ({"plot_cloud": True, "plot_point": True}, {"plot_point": True})}),
        ("plot", "kde", {"opts": ({"kde": 1.2}, {"kde": True})}), ("plot", "grid", {"opts": ({"grid": True}, {"power": 2.0})}), ("plot", "3 parameters", {"cols": (("A", "B", "D"), ("D", "A")), "opts": ({"plot_cloud": True}, {"plot_cloud": True, "color_param": "A"})}),
        ("plot_walks", "", {}), ("plot_walks", "3 parameters", {"cols": (("A", "B", "D"), ("D", "A"))}), ("plot_walks", "log weight", {"kw": {"log_weight": True}}), ("plot_walks", "convolved", {"kw": {"convolve": 10}}),
        ("plot_walks", "convolved log", {"kw": {"convolve": 25, "log_weight": True}, "cfg": {"log_scales": ("B",)}}), ("plot_walks", "parameters only", {"kw": {"plot_weights": False, "plot_posterior": False}}), ("plot_walks", "no weights", {"kw": {"plot_weights": False}})):
        cases.append((f"{m} {nm}".strip(), m, k))
    for nm, m, k in cases:
        ctx.explore(nm, lambda W, m=m, k=k: scene(W, m, **dict(k)), judge, depth=1 if m == "plot_walks" or full else 0, limit=400 if full else 40)


RULES = {"C34": C34, "C35": C35}
