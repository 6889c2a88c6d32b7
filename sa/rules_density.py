"""Rules about density estimates: summary methods (C22), density settings (C23), contour levels (C28)."""
from __future__ import annotations

from fractions import Fraction as Fr

from calc import arg1, short
from common import *  # noqa: F403
from common import S, stack_txt
from norm import Norm, const, describe
from rules_stats import STATS, drawn, flat, free_plots, where
from terms import Term, callarg, leaves, mk, num, show, subterms
from values import *  # noqa: F403

SCALARS = {"simpson", "simps", "trapezoid", "trapz", "max", "amax", "nanmax", "min", "amin", "nanmin", "sum_scalar", "mean", "average"}
HIST = {"histogram", "histogram2d", "histogramdd"}


def C(v):
    return mk("c", v)


def B(o, x, y):
    return mk("bin", o, x, y)


# ---------------------------------------------------------------------------------------------- quantiles
def unwrap(t):
    while isinstance(t, Term) and t.op == "call" and short(t) in ("float", "float64", "asarray", "array", "atleast_1d", "squeeze", "item") and isinstance(arg1(t), Term):
        t = arg1(t)
    return t


def quantile(t):
    """(cdf, grid, probability) if t reads a grid at a probability through an interpolated distribution function"""
    t = unwrap(t)
    if not isinstance(t, Term):
        return None
    k = None
    if t.op in ("item", "elem") and not isinstance(t.a[1], tuple):
        kn = num(t.a[1]) if isinstance(t.a[1], Term) else t.a[1] if isinstance(t.a[1], int) else None
        base = unwrap(t.a[0])
        if kn is None or not isinstance(base, Term):
            # grid[searchsorted(cdf, v)]
            key = unwrap(t.a[1]) if isinstance(t.a[1], Term) else None
            if isinstance(key, Term) and key.op == "call" and short(key) == "searchsorted":
                return callarg(key, "a"), base, callarg(key, "v")
            return None
        t, k = base, int(kn)
    if t.op == "apply" and isinstance(t.a[0], Term) and t.a[0].op == "call" and short(t.a[0]) == "interp1d":
        f = t.a[0]
        v = t.a[1][0]
        x, y = callarg(f, "x"), callarg(f, "y")
    elif t.op == "call" and short(t) == "interp":
        x, y, v = callarg(t, "xp"), callarg(t, "fp"), callarg(t, "x")
    else:
        return None
    if k is not None:
        v = unwrap(v)
        if isinstance(v, Term) and v.op == "list" and -len(v.a[0]) <= k < len(v.a[0]):
            v = v.a[0][k]
        elif isinstance(v, Term):
            v = elementwise(v, k)
        if v is None:
            return None
    return (x, y, v) if isinstance(v, Term) else None


ELEM = {"exp", "sqrt", "square", "cdf", "sf", "erf", "erfc", "expm1", "asarray", "array", "power", "negative", "subtract", "add", "multiply", "divide", "abs", "float"}


def elementwise(t, i):
    """i-th element of an elementwise expression over lists"""
    if not isinstance(t, Term):
        return None
    if num(t) is not None:
        return t
    if t.op == "list":
        return t.a[0][i] if -len(t.a[0]) <= i < len(t.a[0]) and isinstance(t.a[0][i], Term) else None
    if t.op == "bin":
        x, y = elementwise(t.a[1], i), elementwise(t.a[2], i)
        return None if x is None or y is None else B(t.a[0], x, y)
    if t.op == "un":
        x = elementwise(t.a[1], i)
        return None if x is None else mk("un", t.a[0], x)
    if t.op == "opt":
        return t
    if t.op == "call" and short(t) in ("array", "asarray", "atleast_1d", "float64"):
        return elementwise(arg1(t), i)
    if t.op == "call" and short(t) in ELEM:
        args = []
        for k, v in t.a[1]:
            if isinstance(v, Term) and v.op not in ("c",):
                v = elementwise(v, i)
                if v is None:
                    return None
            args.append((k, v))
        return mk("call", t.a[0], tuple(args))
    return None


def is_grid(t):
    return isinstance(t, Term) and any(x.op == "call" and short(x) in ("linspace", "arange") for x in subterms(t)) and not any(x.op == "call" and short(x) == "cumsum" for x in subterms(t))


def cumulated(t):
    """the terms whose running sums make up a distribution function (not those hidden in the binning)"""
    out = []
    walk(t, lambda x, path: out.append(arg1(x)) if x.op == "call" and short(x) == "cumsum" else None)
    return [x for x in out if isinstance(x, Term)]


def walk(t, f, path=()):
    """visit the terms a density-like array is made of, without entering histograms, grids and scalars"""
    seen = set()
    todo = [(t, ())]
    while todo:
        x, p = todo.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        f(x, p)
        todo.extend((y, p) for y in shape_args(x))


def shape_args(x):
    op = x.op
    if op == "call":
        n = short(x)
        if n in HIST or n in SCALARS or n in ("linspace", "arange", "exp", "len", "argsort", "meshgrid", "interp1d"):
            return ()
        if n == "interp":
            return (callarg(x, "fp"),)
        if n in ("where",) and len(x.a[1]) >= 3:
            return tuple(v for _, v in x.a[1][1:])
        return tuple(v for _, v in x.a[1] if isinstance(v, Term)) + tuple(y for _, v in x.a[1] if isinstance(v, tuple) for y in v if isinstance(y, Term))
    if op == "apply":
        g = x.a[0]
        if isinstance(g, Term) and g.op == "call" and short(g) == "interp1d":
            return (callarg(g, "y"),)
        return tuple(x.a[1])
    if op in ("item", "slice", "elem", "reshape", "mutated", "newaxis", "bcast", "part", "T", "ravel"):
        b = x.a[0]
        return (b,)
    if op == "setitem":
        return (x.a[0],)
    if op == "bin":
        return (x.a[1], x.a[2])
    if op == "un":
        return (x.a[1],)
    if op in ("list", "rows"):
        return tuple(x.a[0]) if isinstance(x.a[0], tuple) else ()
    if op == "pick":
        return tuple(x.a[1])
    return ()


# ---------------------------------------------------------------------------------------------- C22
def C22(ctx):
    """For every statistic and density variant the bounds are decomposed through their def-use terms: limits must read the grid at 0.5 -/+ area/2 of the cumulated marginal
    with the chain's own symbolic summary area, the centre is Q(0.5) / midpoint / grid at the density peak as documented, the iso-likelihood and HDI searches compare
    cumulated mass with exactly that area; get_parameter_summary and get_summary must equal the statistic's own public method for each chain's own statistic."""
    OWN = {"MAX": "get_parameter_summary_max", "MEAN": "get_parameter_summary_mean", "CUMULATIVE": "get_parameter_summary_cumulative", "MAX_CENTRAL": "get_parameter_summary_max_central",
           "HDI": "get_parameter_summary_hdi"}
    VARS = [("default", {}), ("unsmoothed", {"smooth": 0}), ("kde", {"kde": 1.2}), ("grid", {"grid": True}), ("power", {"power": 2.0})]

    def scen(W, stat, opts):
        a = W.opt("X", "summary_area", 0.7)
        ch = W.chain("X", label="X", statistics=S(W, stat), summary_area=a, **opts)
        other = W.chain("Y", label="Y", statistics=S(W, "MEAN" if stat != "MEAN" else "CUMULATIVE"), summary_area=W.opt("Y", "summary_area", 0.7), **opts)
        cc = W.consumer(other, ch)
        W.mark()
        an = W.attr(cc, "analysis")
        n0 = len(W.I.atoms)
        W.stat = stat
        W.b = dict(flat(W.call(an, "get_parameter_summary", ch, "A")))
        W.conds = list(W.I.atoms)[n0:] if isinstance(W.I.atoms, dict) else []

    def forms(W):
        """linear forms in which the summary area is compared with cumulated mass"""
        out = []
        roots = list(W.I.atoms) + list(W.b.values())
        seen = set()
        for r in roots:
            for x in subterms(r):
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == "call" and short(x) == "searchsorted":
                    out.append(callarg(x, "v"))
                elif x.op == "call" and short(x) in ("abs", "fabs", "absolute"):
                    out.append(arg1(x))
                elif x.op == "cmp" and isinstance(x.a[1], Term) and isinstance(x.a[2], Term):
                    out.append(B("-", x.a[1], x.a[2]))
        return [x for x in out if isinstance(x, Term)]

    def judge(run, s):
        W = run.W
        if not hasattr(W, "b"):
            return
        st = W.stat
        if run.exc is not None:
            s.undecided(f"{run.name}: {run.exc}")
            return
        a = mk("opt", "X", "summary_area")
        N = Norm()
        lo, ce, up = (W.b.get(k) for k in (".lower", ".center", ".upper"))
        if st in ("CUMULATIVE", "MEAN", "MAX_CENTRAL"):
            qs = {}
            for nm, t, p in (("lower", lo, B("-", C(0.5), B("/", a, C(2)))), ("upper", up, B("+", C(0.5), B("/", a, C(2))))) + ((("center", ce, C(0.5)),) if st == "CUMULATIVE" else ()):
                if t is None:
                    s.bad(f"{st}:{nm}:none", f"{run.name}: the {st} summary has no {nm}", "analysis.py")
                    continue
                q = quantile(t)
                s.ob("quantile limits decomposed")
                if q is None:
                    if nm == "center" and t.op == "item" and any(x.op == "call" and short(x) == "argmax" for x in subterms(t)):
                        s.bad(f"{st}:{nm}:peak", f"{run.name}: the centre of the {st} summary is the density peak", where(t))
                    else:
                        s.undecided(f"{run.name}: {nm} is not a recognised quantile")
                    continue
                cdf, grid, v = q
                if is_grid(cdf) and cumulated(grid):
                    s.bad(f"{st}:{nm}:swapped", f"{run.name}: {nm} reads the distribution function at a probability instead of the grid", where(t))
                    continue
                r, w = N(v), N(p)
                if not r.same(w):
                    if all(N.info[i][0][0] in ("opt",) for m in r.n for i, _ in m):
                        s.bad(f"{st}:{nm}:probability", f"{run.name}: {nm} of the {st} summary is the quantile at {describe(N, r)} instead of {describe(N, w)}", where(t))
                    else:
                        s.undecided(f"{run.name}: probability of {nm} not recognised")
                cu = cumulated(cdf)
                if not cu:
                    s.undecided(f"{run.name}: distribution function not recognised")
                    continue
                own = {x.a[0] for x in leaves(cdf) if x.op == "col"} | {x.a[0] for x in leaves(grid) if x.op == "col"}
                cols = {x.a[1] for x in leaves(cdf) if x.op == "col"}
                s.check(own <= {"X"} and "A" in cols and "B" not in cols, "marginals of the summarised parameter", f"{st}:{nm}:data", f"{run.name}: {nm} is computed from {sorted(own)} {sorted(cols)}", where(t))
                qs[nm] = (cdf, grid)
            if len(qs) >= 2:
                s.check(len({(x.id, y.id) for x, y in qs.values()}) == 1, "limits read from one distribution", f"{st}:one", f"{run.name}: the limits of the {st} summary are read from different distributions", where(lo))
            if st == "MEAN" and ce is not None and lo is not None and up is not None:
                want = N(B("/", B("+", lo, up), C(2)))
                got = N(ce)
                s.ob("midpoints compared")
                if not got.same(want):
                    q = quantile(ce)
                    if q is not None or all(N.info[i][0][0] in ("item", "opt", "interp", "apply") for m in got.n for i, _ in m) and got.d == {(): Fr(1)}:
                        s.bad(f"{st}:center", f"{run.name}: the centre of the MEAN summary is {show(ce, 3)[:150]}, not the midpoint of its limits", where(ce))
                    else:
                        s.undecided(f"{run.name}: midpoint not recognised")
        if st in ("MAX_CENTRAL", "MAX") and ce is not None:
            peak(run, s, st, unwrap(ce), lo)
        if st in ("MAX", "HDI"):
            area = False
            for f in forms(W):
                if not any(x is a for x in leaves(f)):
                    if any(x.op == "opt" and x.a[1] == "summary_area" for x in leaves(f)):
                        s.bad(f"{st}:other", f"{run.name}: the {st} search uses the summary area of another chain", where(f))
                    continue
                area = True
                r = N(f)
                if r.d != {(): Fr(1)}:
                    continue
                ca, mass, odd = None, [], False
                for m, q in r.n.items():
                    kinds = [N.info[i][0] for i, _ in m]
                    if any(k[0] == "opt" and str(k[-1]).strip("'") == "summary_area" for k in kinds):
                        if len(m) == 1 and m[0][1] == 1:
                            ca = q
                        else:
                            odd = True
                    elif not m:
                        continue
                    elif len(m) == 1 and m[0][1] == 1 and kinds[0][0] in ("item", "elem"):
                        mass.append(q)
                    else:
                        odd = True
                if odd or ca is None or not mass:
                    continue
                s.ob("mass compared with the summary area")
                if any(abs(q) != abs(ca) for q in mass):
                    s.bad(f"{st}:area", f"{run.name}: the {st} search compares mass differences with {float(abs(ca) / abs(mass[0])):g} times the summary area", where(f) if where(f) != "chainconsumer" else where(lo or ce))
            if lo is not None and up is not None:
                dep = area or any(x is a for t in (lo, up) for x in leaves(t))
                s.check(dep, "searches depending on the summary area", f"{st}:noarea", f"{run.name}: the {st} limits do not depend on the chain's summary area", where(lo))

    def peak(run, s, st, ce, lo):
        s.ob("peak centres decomposed")
        if ce.op not in ("item", "elem"):
            q = quantile(ce)
            if q is not None:
                s.bad(f"{st}:center", f"{run.name}: the centre of the {st} summary is a quantile, not the density peak", where(ce))
            else:
                s.undecided(f"{run.name}: centre not recognised")
            return
        k = unwrap(ce.a[1]) if isinstance(ce.a[1], Term) else None
        if quantile(ce) is not None:
            s.bad(f"{st}:center", f"{run.name}: the centre of the {st} summary is a quantile, not the density peak", where(ce))
            return
        if not (isinstance(k, Term) and k.op == "call" and short(k) in ("argmax", "nanargmax", "argmin")):
            s.undecided(f"{run.name}: centre index not recognised")
            return
        y = arg1(k)
        if short(k) == "argmin" or isinstance(y, Term) and any(x.op == "call" and short(x) == "cumsum" for x in shape_terms(y)):
            s.bad(f"{st}:center", f"{run.name}: the centre of the {st} summary is not taken at the density peak", where(ce))
            return
        if st == "MAX_CENTRAL" and lo is not None:
            q = quantile(lo)
            if q is not None:
                s.check(unwrap(q[1]) is unwrap(ce.a[0]), "peak on the quantile grid", f"{st}:grid", f"{run.name}: peak and limits of the {st} summary are read from different grids", where(ce))
                cu = cumulated(q[0])
                if cu:
                    s.check(y in cu, "peak of the cumulated density", f"{st}:density", f"{run.name}: the peak is taken from a density other than the one cumulated for the limits", where(ce))

    def shape_terms(t):
        out = []
        walk(t, lambda x, p: out.append(x))
        return out

    for st in STATS:
        for vn, o in VARS:
            ctx.explore(f"{vn}/{st}", lambda W, st=st, o=o: scen(W, st, o), judge, depth=1 if st in ("MAX",) and vn == "default" else 0)

    # dispatch
    def disp(W, stat, multi=False):
        o = {"statistics": S(W, stat)} if stat else ({"multimodal": True} if multi else {})
        ch = W.chain("X", label="X", summary_area=W.opt("X", "summary_area", 0.7), **o)
        W.other = [x for x in STATS if x != (stat or "MAX")][0]
        cy = W.chain("Y", label="Y", summary_area=W.opt("Y", "summary_area", 0.6), statistics=S(W, W.other))
        cc = W.consumer(cy, ch)
        W.mark()
        an = W.attr(cc, "analysis")
        W.want = stat or ("HDI" if multi else "MAX")
        W.multi = multi
        W.got = dict(flat(W.call(an, "get_parameter_summary", ch, "B")))
        W.ref = {}
        for k, m in OWN.items():
            try:
                f = W.I.getattr(an, m)
            except Exception:
                continue
            W.ref[k] = dict(flat(W.I.call(f, [ch, "B"], {})))
            W.ref["Y" + k] = dict(flat(W.I.call(f, [cy, "B"], {})))
        W.summ = W.call(an, "get_summary")

    def djudge(run, s):
        W = run.W
        if run.exc is not None and not hasattr(W, "summ"):
            if run.base and not run.exc.implicit:
                s.bad(f"dispatch:{run.exc.cname}", f"{run.name}: summarising with {getattr(W, 'want', '?')} raises {run.exc}", "analysis.py")
            elif run.base and run.exc.cname == "KeyError":
                s.bad(f"dispatch:{run.exc.cname}", f"{run.name}: the statistic {getattr(W, 'want', '?')} is not dispatched: {run.exc}", "analysis.py")
            else:
                s.undecided(f"{run.name}: {run.exc}")
            return
        if W.want not in W.ref:
            s.undecided(f"no public method for {W.want}")
            return
        ids = lambda d: {k: v.id for k, v in d.items()}  # noqa: E731
        alike = {k for k in OWN if k in W.ref and ids(W.ref[k]) == ids(W.got)}
        s.check(W.want in alike, "dispatched statistics", f"dispatch:{W.want}", f"{run.name}: get_parameter_summary with statistic {W.want} gives the result of {sorted(alike) or 'no documented method'}", "analysis.py")
        seen = {}
        for k in OWN:
            if k in W.ref:
                key = tuple(sorted(ids(W.ref[k]).items()))
                if key in seen and len(key) > 1:
                    s.bad(f"same:{k}", f"{run.name}: {k} and {seen[key]} return the same values", "analysis.py")
                seen[key] = k
        if isinstance(W.summ, VDict):
            for nm, key in (("X", W.want), ("Y", "Y" + W.other)):
                r = W.summ.get(nm)
                if isinstance(r, VDict) and not (W.multi and nm == "X"):
                    got = ids(dict(flat(r.get("B"))))
                    s.check(got == ids(W.ref[key]), "summaries per chain", f"summary:{nm}", f"{run.name}: get_summary gives chain {nm} something other than its own {key.lstrip('Y')} summary", "analysis.py")

    for st in (*STATS, None):
        ctx.explore(f"dispatch {st}", lambda W, st=st: disp(W, st), djudge)
    ctx.explore("dispatch multimodal", lambda W: disp(W, None, True), djudge)


# ---------------------------------------------------------------------------------------------- C23
class Density:
    """where a density-like term comes from: histogram counts or kernel sums, with the power exponents, smoothing filters and relative heights applied on the way"""

    def __init__(self, label):
        self.label = label

    def own(self, t, name):
        return isinstance(t, Term) and t.op == "opt" and t.a[1] == name

    def sources(self, t):
        out, seen = [], set()
        todo = [(t, (), (), 0)]
        while todo:
            x, pw, sm, h = todo.pop()
            if not isinstance(x, Term) or (x.id, pw, sm, h) in seen:
                continue
            seen.add((x.id, pw, sm, h))
            op = x.op
            if op == "call":
                n = short(x)
                if n in HIST:
                    out.append((n, x, pw, sm, h))
                    continue
                if n == "exp":
                    out.append(("kernel", x, pw, sm, h))
                    continue
                if n == "power":
                    todo.append((arg1(x), pw + (x.a[1][1][1],), sm, h))
                    continue
                if n in ("gaussian_filter", "gaussian_filter1d", "uniform_filter", "median_filter"):
                    sg = callarg(x, "sigma") if n.startswith("gaussian") else mk("c", n)
                    todo.append((callarg(x, "input"), pw, sm + (sg,), h))
                    continue
                if n == "sum" and not kernel_sum(arg1(x)):
                    continue
                if n == "where" and len(x.a[1]) == 1:
                    continue
            if op == "item" and isinstance(x.a[0], Term) and x.a[0].op == "call" and short(x.a[0]) in HIST and num(x.a[1]) not in (0, None):
                continue
            if op == "bin":
                o, a, b = x.a
                if o == "**":
                    todo.append((a, pw + (b,), sm, h))
                    continue
                if o == "*" and (self.own(a, RH) or self.own(b, RH)):
                    k, y = (a, b) if self.own(a, RH) else (b, a)
                    todo.append((y, pw, sm, h + 1 if k.a[0] == self.label else h + 100))
                    continue
                if o == "/" and self.own(b, RH):
                    todo.append((a, pw, sm, h - 1))
                    continue
            for y in shape_args(x):
                todo.append((y, pw, sm, h))
        return out


RH = "histogram_relative_height"


def kernel_sum(t):
    """sum over samples of kernel values (as opposed to the total of an estimated density)"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term):
            continue
        if x.op == "call":
            n = short(x)
            if n == "exp":
                return True
            if n in HIST or n in SCALARS or n in ("sum", "linspace", "cumsum", "interp1d"):
                continue
        if x.op in ("list", "rows"):
            continue
        todo.extend(shape_args(x))
    return False


def densities(roots):
    """operands of running sums and peak searches, not those hidden inside the binning"""
    out, seen, todo = [], set(), list(roots)
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "call":
            n = short(x)
            if n in HIST or n == "linspace":
                continue
            if n in ("cumsum", "argmax") and isinstance(arg1(x), Term):
                out.append((n, x))
        for a in x.a:
            stack = [a]
            while stack:
                y = stack.pop()
                if isinstance(y, Term):
                    todo.append(y)
                elif isinstance(y, tuple):
                    stack.extend(y)
    return out


def C23(ctx):
    """With symbolic bandwidth, power, smoothing and relative height every density reaching a summary (running sums, peak searches) or a drawing call (curves, bars, shaded
    bands, contour surfaces) is traced back to its histogram counts or kernel sums; each path must raise to the chain's power exactly once, filter histograms with the chain's
    smoothing exactly once (never when smoothing is off), scale the kernel exponent by bandwidth^-2, and multiply drawn marginals by the relative height exactly once."""
    DRAW = {"plot": 1, "hist": 1, "fill_between": 1, "fill_betweenx": 1, "step": 1, "bar": 1, "stairs": 1, "contour": 0, "contourf": 0, "pcolormesh": 0, "imshow": 0}

    def opts(W, lab, kde, smooth, **k):
        o = {"power": W.opt(lab, "power", 2.0), RH: W.opt(lab, RH, 0.5), **k}
        if kde:
            o["kde"] = W.opt(lab, "kde", 1.2)
        if smooth is not None:
            o["smooth"] = W.opt(lab, "smooth", 2) if smooth else 0
        return o

    def plots(W, which, kde, smooth, **k):
        W.kde, W.smooth, W.grid = kde, smooth, k.get("grid")
        a = W.chain("X", label="X", cols=("A", "B"), color="#123456", **opts(W, "X", kde, smooth, **k))
        b = W.chain("Y", label="Y", cols=("A", "B"), color="#654321", **opts(W, "Y", kde, smooth, **k))
        cc = W.consumer(a, b, config=W.config(flip=True) if which == "flip" else None)
        W.mark()
        if which == "free":
            free_plots(W, a)
        else:
            W.call(W.attr(cc, "plotter"), "plot" if which == "flip" else which)

    def summ(W, stat, kde, smooth, **k):
        W.kde, W.smooth, W.grid = kde, smooth, k.get("grid")
        ch = W.chain("X", label="X", statistics=S(W, stat), **opts(W, "X", kde, smooth, **k))
        cc = W.consumer(ch)
        W.mark()
        an = W.attr(cc, "analysis")
        W.out = [t for _, t in flat(W.call(an, "get_parameter_summary", ch, "A"))]
        if stat == "HDI":
            iv = W.call(an, "get_parameter_hdi_intervals", ch, "A")
            W.out += [t for _, t in flat(iv)]
            W.out += [t for _, t in flat(W.call(an, "get_parameter_multimodal_bounds", ch, "A", iv))]

    def kde_degree(N, t):
        """degree of the exponent of a kernel in the bandwidth option; None if not a clean power"""
        r = N(arg1(t))
        if r.d != {(): Fr(1)}:
            return None
        ks = set()
        for m, _ in r.n.items():
            e, deep = Fr(0), False
            for i, q in m:
                k = N.info[i][0]
                if k[0] == "opt" and str(k[-1]).strip("'") == "kde":
                    e += q
            ks.add(e)
        return ks.pop() if len(ks) == 1 else None

    def check(run, s, t, lab, what, site, height=None, dens=None):
        W = run.W
        D = dens or Density(lab)
        src = D.sources(t)
        if not src:
            return 0
        N = Norm()
        kinds = {k for k, *_ in src}
        fn = site[1] if isinstance(site, tuple) else site
        for kind, node, pw, sm, h in src:
            s.ob("paths from density estimates to their use")
            mine = [p for p in pw if D.own(p, "power")]
            odd = [p for p in pw if not D.own(p, "power") and num(p) is None]
            if odd and any(D.own(x, "power") for p in odd for x in leaves(p)):
                s.bad(f"power:{fn}:expr", f"{run.name}: {what} is raised to {show(odd[0], 3)[:80]} instead of the chain's power", site)
            elif odd:
                s.undecided(f"{run.name}: exponent {show(odd[0], 2)[:60]}")
            elif any(p.a[0] != lab for p in mine):
                s.bad(f"power:{fn}:other", f"{run.name}: {what} of chain {lab} is raised to the power of chain {mine[0].a[0]}", site)
            elif len(mine) != 1:
                s.bad(f"power:{fn}:{kind}:{len(mine)}", f"{run.name}: {what} is raised to the chain's power {len(mine)} times ({'kernel density' if kind == 'kernel' else kind})", site)
            if kind in HIST and W.kde and "kernel" not in kinds:
                s.bad(f"kde:{fn}:{kind}", f"{run.name}: {what} is a histogram although a KDE bandwidth is set", site)
            elif kind in HIST and not W.kde:
                on = W.smooth or (W.smooth is None and not W.grid)
                if on and not sm:
                    s.bad(f"smooth:{fn}:{kind}:none", f"{run.name}: {what} is not smoothed", site)
                elif not on and sm:
                    s.bad(f"smooth:{fn}:{kind}:off", f"{run.name}: {what} is smoothed although smoothing is off", site)
                elif on and len(sm) > 1:
                    s.bad(f"smooth:{fn}:{kind}:twice", f"{run.name}: {what} is smoothed {len(sm)} times", site)
                elif on and W.smooth:
                    w = sm[0]
                    own = [x for x in leaves(w) if x.op == "opt"] if isinstance(w, Term) else []
                    s.check(isinstance(w, Term) and N(w).same(N(mk("opt", lab, "smooth"))), "smoothing widths", f"smooth:{fn}:{kind}:width", f"{run.name}: {what} is smoothed with width {show(w, 3)[:80] if isinstance(w, Term) else w} instead of the chain's smoothing", site) if own or isinstance(w, Term) and num(w) is not None else s.undecided("smoothing width not recognised")
                elif on:
                    s.check(num(sm[0]) == 3, "default smoothing widths", f"smooth:{fn}:{kind}:default", f"{run.name}: {what} is smoothed with width {show(sm[0], 2)} instead of the default 3", site)
            if kind == "kernel" and not W.kde:
                s.bad(f"kde:{fn}:on", f"{run.name}: {what} is a kernel density although KDE is off", site)
            if kind == "kernel" and W.kde:
                d = kde_degree(N, node)
                s.ob("kernel widths")
                if d is None:
                    s.undecided(f"{run.name}: kernel exponent not recognised")
                elif d != -2:
                    s.bad(f"kde:{fn}:width", f"{run.name}: the kernel exponent of {what} scales with bandwidth^{d}, expected bandwidth^-2", where(node))
                elif any(x.op == "opt" and x.a[1] == "kde" and x.a[0] != lab for x in leaves(arg1(node))):
                    s.bad(f"kde:{fn}:other", f"{run.name}: {what} of chain {lab} uses the bandwidth of another chain", site)
            if height is not None:
                s.ob("relative heights")
                if h != height:
                    s.bad(f"height:{fn}:{h}", f"{run.name}: {what} is multiplied by the chain's relative height {h if abs(h) < 50 else 'of another chain'} times, expected {height}", site)
        return len(src)

    def pjudge(run, s):
        W = run.W
        if run.exc is not None:
            s.undecided(f"{run.name}: {run.exc}")
        n = 0
        for e, k, t in drawn(W, W.events()):
            if e.name not in DRAW or k == "levels":
                continue
            labs = {x.a[0] for x in leaves(t) if x.op == "col"}
            if not labs:
                continue
            D = Density(None)
            src = D.sources(t)
            if not src:
                continue
            own = {x.a[0] for _, nd, *_ in src for x in leaves(nd) if x.op == "col"}
            if len(own) != 1:
                s.undecided(f"{run.name}: density of several chains")
                continue
            n += check(run, s, t, own.pop(), f"the density drawn by {e.name}", e.site, DRAW[e.name])
        if run.base and run.exc is None and n == 0:
            s.undecided(f"{run.name}: no drawn density found")

    def sjudge(run, s):
        W = run.W
        if not hasattr(W, "out"):
            return
        roots = list(W.out) + list(run.I.atoms) + [v for e in W.events("rootfind") for v in (e.d.get("value"),) if isinstance(v, Term)]
        n = 0
        for op, x in densities(roots):
            n += check(run, s, arg1(x), "X", f"the summarised density ({op})", where(x))
        if run.base and n == 0:
            s.undecided(f"{run.name}: no summarised density found")

    CASES = [("hist", dict(kde=False, smooth=2)), ("default smoothing", dict(kde=False, smooth=None)), ("unsmoothed", dict(kde=False, smooth=0)), ("kde", dict(kde=True, smooth=2)), ("kde unsmoothed", dict(kde=True, smooth=0)),
             ("grid", dict(kde=False, smooth=None, grid=True)), ("grid smoothed", dict(kde=False, smooth=2, grid=True)), ("grid kde", dict(kde=True, smooth=None, grid=True))]
    for n, o in CASES:
        for w in ("plot", "flip", "plot_distributions", "plot_summary", "free"):
            ctx.explore(f"{w}/{n}", lambda W, w=w, o=o: plots(W, w, **o), pjudge)
        for st in STATS:
            ctx.explore(f"{st}/{n}", lambda W, st=st, o=o: summ(W, st, **o), sjudge)


# ---------------------------------------------------------------------------------------------- C28
def C28(ctx):
    """Every `levels` argument of contour/contourf is compared elementwise, as a normal form over symbolic sigmas of the drawn chain, with 2 Phi(s) - 1 or 1 - exp(-s^2/2);
    the level surface must be the running sum of the density in descending order, divided by its last value and put back with the inverse permutation."""

    def canon(t):
        """rewrite the special functions into one form"""
        if not isinstance(t, Term):
            return t
        if t.op == "call":
            n, path = short(t), str(t.a[0])
            args = dict((k, canon(v)) for k, v in t.a[1])
            x = next(iter(args.values()), None)
            if n == "erf" and isinstance(x, Term):
                return B("-", B("*", C(2), phi(B("*", x, C(2.0 ** 0.5)))), C(1))
            if n == "erfc" and isinstance(x, Term):
                return B("-", C(2), B("*", C(2), phi(B("*", x, C(2.0 ** 0.5)))))
            if n == "expm1" and isinstance(x, Term):
                return B("-", mk("call", "numpy.exp", (("x", x),)), C(1))
            if n in ("cdf", "sf") and "chi2" in path and isinstance(args.get("df"), Term) and num(args["df"]) in (1, 2):
                r = B("-", C(1), mk("call", "numpy.exp", (("x", B("*", C(-0.5), x)),))) if num(args["df"]) == 2 else None
                if r is None:
                    return t
                return r if n == "cdf" else B("-", C(1), r)
            if n == "sf" and "norm" in path:
                return B("-", C(1), phi(x))
            if n == "cdf" and "norm" in path and len(args) == 1:
                return phi(x)
            return mk("call", t.a[0], tuple(args.items()))
        if t.op == "bin":
            return B(t.a[0], canon(t.a[1]), canon(t.a[2]))
        if t.op == "un":
            return mk("un", t.a[0], canon(t.a[1]))
        return t

    def phi(x):
        # erf(s/sqrt 2): fold the numeric factor
        N = Norm()
        r = N(x)
        m = r.mono()
        if m is not None and m[0] and abs(float(m[1]) - 1) < 1e-9 and isinstance(x, Term):
            o = [y for y in subterms(x) if y.op == "opt"]
            if len(o) == 1:
                x = o[0]
        c_ = r.asconst()
        if c_ is not None and abs(float(c_) - round(float(c_), 6)) < 1e-9:
            x = C(round(float(c_), 6))
        if c_ is not None and float(c_) == 0:
            return C(0.5)
        if c_ is not None and float(c_) < 0 or c_ is None and m is not None and m[0] and float(m[1]) < 0:
            return B("-", C(1), phi(mk("un", "-", x)))
        return mk("call", "Phi", (("x", x),))

    def scen(W, which, sigma2d, sig, shade=True, override=False):
        def sg(lab):
            return VList([W.opt(lab, f"sigma{i}", float(i)) for i in range(3)]) if sig else None

        W.sig, W.two = sig, sigma2d
        W.over = override
        o1 = {"sigmas": sg("X")} if sig and not override else {}
        o2 = {"sigmas": VList([W.opt("Y", f"sigma{i}", float(i)) for i in range(2)])} if sig and not override else {}
        a = W.chain("X", label="X", color="#123456", shade=shade, **o1)
        b = W.chain("Y", label="Y", color="#654321", shade=shade, power=2.0, **o2)
        ov = W.I.instantiate(W.cls("chain.ChainConfig"), [], {"sigmas": sg("O")}) if override else None
        cfg = W.config(sigma2d=sigma2d)
        cc = W.consumer(a, b, config=cfg, override=ov)
        W.mark()
        if which == "plot":
            W.call(W.attr(cc, "plotter"), "plot")
        else:
            m = W.I.load("chainconsumer.plotting.contours").ns
            if "plot_contour" in m:
                for ch in (a, b):
                    ax = W.I.lib.new_axes() if hasattr(W.I.lib, "new_axes") else ExtObj("Axes", "free", meta={"row": 0, "col": 0, "nrows": 1, "ncols": 1})
                    W.I.call(m["plot_contour"], [ax, ch, "A", "B", cfg], {})

    def judge(run, s):
        W = run.W
        if run.exc is not None:
            s.undecided(f"{run.name}: {run.exc}")
        n = 0
        for e in W.events("ext"):
            if e.name not in ("contour", "contourf"):
                continue
            targs, tkw = e.d.get("targs") or (), e.d.get("tkw") or {}
            z = next((t for t in targs[2:3] if isinstance(t, Term)), None) or (targs[0] if len(targs) == 1 else None)
            lv = tkw.get("levels") if "levels" in tkw else (targs[3] if len(targs) > 3 else None)
            n += 1
            if z is None:
                s.undecided("surface not symbolic")
                continue
            own = {x.a[0] for x in leaves(z) if x.op == "col"}
            if len(own) != 1:
                s.undecided("surface of several chains")
                continue
            lab = own.pop()
            levels(run, s, e, lv, lab)
            surface(run, s, e, z)
        if run.base and run.exc is None and n == 0:
            s.bad("none", f"{run.name}: no contour is drawn", "plotting/contours.py")

    def levels(run, s, e, lv, lab):
        W = run.W
        if lv is None:
            s.bad(f"levels:{e.name}:missing", f"{run.name}: {e.name} is drawn without levels", e.site)
            return
        if not isinstance(lv, Term):
            lv = mk("list", tuple(x if isinstance(x, Term) else C(x) for x in lv.items)) if isinstance(lv, VList) else None
        if lv is None:
            s.undecided("levels not symbolic")
            return
        cnt = {"X": 3, "Y": 2}[lab] if W.sig and not W.over else 3
        src = "O" if W.over else lab
        N = Norm()
        for i in range(cnt):
            t = elementwise(lv, i)
            if t is None:
                s.undecided(f"{run.name}: level {i} not recognised: {show(lv, 3)[:120]}")
                continue
            sg = mk("opt", src, f"sigma{i}") if W.sig else C(float(i))
            want = B("-", C(1), mk("call", "numpy.exp", (("x", B("*", C(-0.5), B("*", sg, sg))),))) if W.two else B("-", B("*", C(2), phi(sg)), C(1))
            s.ob("contour levels compared with the enclosed probability of their sigma")
            r, w = N(canon(t)), N(want)
            if r.same(w) or r.asconst() is not None and abs(value(t) - value(want)) < 1e-9:
                continue
            if any(x.op == "opt" and x.a[0] not in (src,) for x in leaves(t)):
                s.bad(f"levels:{e.name}:chain", f"{run.name}: level {i} of {e.name} for chain {lab} uses the sigmas of another chain", e.site)
            elif all(x.op in ("opt", "c") for x in leaves(t)) and known(t):
                s.bad(f"levels:{e.name}:{'2d' if W.two else '1d'}", f"{run.name}: level {i} of {e.name} is {show(t, 6)[:120]}, expected {'1 - exp(-s^2/2)' if W.two else '2 Phi(s) - 1'} of the chain's sigma", e.site)
            else:
                s.undecided(f"{run.name}: level {i}: {show(t, 4)[:100]}")
        if isinstance(lv, Term) and elementwise(lv, cnt) is not None and "list" in {x.op for x in subterms(lv)}:
            s.bad(f"levels:{e.name}:extra", f"{run.name}: {e.name} draws more levels than the chain has sigmas", e.site)

    def known(t):
        return all(x.op in ("bin", "un", "c", "opt", "list", "item") or x.op == "call" and short(x) in ELEM for x in subterms(t))

    def value(t):
        n = num(t)
        if n is not None:
            return float(n)
        if t.op == "bin":
            x, y = value(t.a[1]), value(t.a[2])
            return {"+": x + y, "-": x - y, "*": x * y, "/": x / y if y else float("nan"), "**": x**y if x > 0 else float("nan")}.get(t.a[0], float("nan"))
        if t.op == "call" and short(t) == "Phi":
            from math import erf

            return 0.5 * (1 + erf(value(t.a[1][0][1]) / 2**0.5))
        if t.op == "call" and short(t) == "exp":
            from math import exp

            return exp(value(t.a[1][0][1]))
        return float("nan")

    def strip(t):
        while isinstance(t, Term):
            if t.op in ("T", "reshape", "ravel", "mutated") and not (t.op == "mutated" and False):
                t = t.a[0]
            elif t.op == "call" and short(t) in ("asarray", "array", "ascontiguousarray", "reshape", "transpose", "ravel", "flatten", "clip", "minimum", "squeeze"):
                t = arg1(t)
            else:
                break
        return t

    def split_scale(t):
        """(array, divisor) of c * array / divisor"""
        d = None
        while isinstance(t, Term) and t.op == "bin" and t.a[0] in ("*", "/"):
            o, a, b = t.a
            if o == "*":
                if num(a) is not None:
                    t = b
                elif num(b) is not None:
                    t = a
                else:
                    break
            else:
                if num(b) is not None:
                    t = a
                elif d is None:
                    t, d = a, b
                else:
                    break
        return t, d

    def surface(run, s, e, z):
        s.ob("level surfaces decomposed")
        if not any(x.op == "call" and short(x) == "cumsum" for x in walkterms(z)):
            src = Density(None).sources(z)
            if src and not any(x.op in ("unk", "root", "loop") for x in walkterms(z)):
                s.bad(f"surface:{e.name}:density", f"{run.name}: {e.name} draws the density itself, not its cumulated probability", e.site)
            else:
                s.undecided("surface not recognised")
            return
        t = strip(z)
        t, d0 = split_scale(t)
        t = strip(t)
        if t.op == "setitem":
            key, val = t.a[1], t.a[2]
            perm, inv = key, None
            cum = val
        elif t.op in ("item", "slice") and isinstance(t.a[1], Term):
            cum, inv = t.a[0], t.a[1]
            perm = None
        else:
            if any(x.op == "call" and short(x) == "cumsum" for x in (split_scale(t)[0],)):
                s.bad(f"surface:{e.name}:unsorted", f"{run.name}: the surface of {e.name} is not put back into the order of the grid", e.site)
            else:
                s.undecided(f"surface form {t.op}")
            return
        cum, d1 = split_scale(strip(cum))
        div = d0 if d0 is not None else d1
        cum = strip(cum)
        if cum.op == "bin" and cum.a[0] in ("+", "-"):
            a, b = (strip(split_scale(strip(q))[0]) if isinstance(q, Term) else q for q in cum.a[1:])
            for p_, q in ((a, b), (b, a) if cum.a[0] == "+" else (None, None)):
                if isinstance(p_, Term) and p_.op == "call" and short(p_) == "cumsum" and isinstance(q, Term) and num(q) != 0 and all(x.op not in ("unk", "root", "loop") for x in walkterms(q)):
                    s.bad(f"surface:{e.name}:offset", f"{run.name}: the surface of {e.name} is the running sum shifted by {show(q, 2)[:80]}, not the cumulated probability", e.site)
                    return
        if not (cum.op == "call" and short(cum) == "cumsum"):
            s.undecided("running sum not found")
            return
        x = arg1(cum)
        # division inside the running sum: cumsum(x / sum(x))
        y, d2 = split_scale(strip(x))
        if d2 is not None and div is None:
            div = d2
        x = ordered = strip(y)
        if not (isinstance(x, Term) and x.op in ("item", "slice") and isinstance(x.a[1], Term)):
            if isinstance(x, Term) and x.op == "call" and short(x) == "sort":
                s.undecided("sorted by value")
            else:
                src = Density(None).sources(x)
                if src and not any(q.op == "call" and short(q) in ("argsort", "sort", "lexsort", "argpartition") for q in subterms(z)):
                    s.bad(f"surface:{e.name}:sort", f"{run.name}: the running sum behind {e.name} is not taken in order of density", e.site)
                else:
                    s.undecided("order of the running sum not recognised")
            return
        # descending order: x = D[order]; D[order][::-1]
        rev = 0
        base, order = x.a[0], x.a[1]
        if is_rev(order):
            rev ^= 1
            x = strip(base)
            if not (isinstance(x, Term) and x.op in ("item", "slice") and isinstance(x.a[1], Term)):
                s.undecided("order not recognised")
                return
            base, order = x.a[0], x.a[1]
        full = order
        o = strip(order)
        while isinstance(o, Term) and o.op in ("item", "slice") and is_rev(o.a[1]) or isinstance(o, Term) and o.op == "call" and short(o) in ("flip", "flipud"):
            rev ^= 1
            o = strip(o.a[0] if o.op != "call" else arg1(o))
        if not (isinstance(o, Term) and o.op == "call" and short(o) == "argsort"):
            s.undecided("ordering not recognised")
            return
        key = strip(arg1(o))
        if isinstance(key, Term) and key.op == "un" and key.a[0] == "-":
            rev ^= 1
            key = strip(key.a[1])
        elif isinstance(key, Term) and key.op == "bin" and key.a[0] == "*" and num(key.a[1]) is not None and num(key.a[1]) < 0:
            rev ^= 1
            key = strip(key.a[2])
        D = strip(base)
        if key is not D and not (isinstance(key, Term) and isinstance(D, Term) and Norm()(key).same(Norm()(D))):
            s.undecided("ordering key differs from the ordered density")
            return
        s.check(rev == 1, "descending order of the running sums", f"surface:{e.name}:ascending", f"{run.name}: the running sum behind {e.name} starts from the least dense cells", e.site)
        # inverse permutation
        if inv is not None:
            ok = isinstance(inv, Term) and inv.op == "call" and short(inv) == "argsort" and strip(arg1(inv)) is strip(full)
            if ok:
                s.ob("inverse permutations")
            elif strip(inv) is strip(full) or isinstance(inv, Term) and strip(inv) is o:
                s.bad(f"surface:{e.name}:permutation", f"{run.name}: the running sum behind {e.name} is put back with the sorting order itself instead of its inverse", e.site)
            else:
                s.undecided("inverse permutation not recognised")
        elif perm is not None:
            if strip(perm) is not strip(full):
                s.undecided("permutation not recognised")
        # normalisation
        if div is None:
            s.bad(f"surface:{e.name}:norm", f"{run.name}: the running sum behind {e.name} is not normalised to one", e.site)
        else:
            dv = strip(div)
            fine = False
            if dv.op in ("item", "elem") and num(dv.a[1]) == -1:
                c2, _ = split_scale(strip(dv.a[0]))
                fine = strip(c2) is cum
            elif dv.op == "call" and short(dv) in ("max", "amax"):
                c2, _ = split_scale(strip(arg1(dv)))
                fine = strip(c2) is cum
                if not fine and strip(arg1(dv)) is D:
                    s.bad(f"surface:{e.name}:norm", f"{run.name}: the running sum behind {e.name} is divided by the largest density, not its total", e.site)
                    return
            elif dv.op == "call" and short(dv) == "sum":
                fine = strip(arg1(dv)) in (D, strip(x), ordered)
            if fine:
                s.ob("normalisations")
            else:
                s.undecided(f"normalisation not recognised {show(dv, 3)[:80]}")

    def is_rev(k):
        return isinstance(k, Term) and (k.op == "slice" and "-1" in show(k, 3) or k.op == "c" and isinstance(k.a[0], slice) and k.a[0].step == -1)

    def walkterms(t):
        out = []
        walk(t, lambda x, p: out.append(x))
        return out

    for two in (False, True):
        for sig in (False, True):
            for w in ("plot", "free"):
                ctx.explore(f"{w}/{'2d' if two else '1d'}/{'own sigmas' if sig else 'default sigmas'}", lambda W, w=w, two=two, sig=sig: scen(W, w, two, sig), judge)
        ctx.explore(f"override/{'2d' if two else '1d'}", lambda W, two=two: scen(W, "plot", two, True, override=True), judge)
        ctx.explore(f"unshaded/{'2d' if two else '1d'}", lambda W, two=two: scen(W, "plot", two, True, shade=False), judge)


RULES = {"C22": C22, "C23": C23, "C28": C28}
