"""Densities and the positions they belong to (C36)."""
from __future__ import annotations

from calc import arg1, short
from common import *  # noqa: F403
from figs import DRAW, Artist
from norm import Norm
from rules_density import S, unwrap
from rules_plot import crashed, scene, scenes
from rules_stats import STATS, free_plots, summary_outputs, where
from terms import Term, callarg, mk, num, show, subterms
from values import SV, Inst, Native, to_term

KEEP = {"asarray", "array", "ascontiguousarray", "copy", "float", "gaussian_filter", "gaussian_filter1d", "savgol_filter", "uniform_filter1d", "cumsum", "nan_to_num", "clip", "maximum", "minimum",
        "sqrt", "log", "exp", "abs", "squeeze", "ravel", "flatten", "power", "where", "astype"}


def C(v):
    return mk("c", v)


class Pos:
    """where along its parameter each entry of an array of densities lies"""

    def __init__(self):
        self.N = Norm()
        self.memo = {}

    # ------------------------------------------------------------------ first and last elements
    def el(self, E, k):
        E = unwrap(E)
        if E.op == "call" and short(E) in ("linspace", "geomspace", "logspace") and k in (0, -1):
            v = callarg(E, "start" if k == 0 else "stop")
            if v is not None:
                return self.scalar(v)
        if E.op == "call" and short(E) == "linspace" and k in (1, -2):
            a, b, n = (callarg(E, z) for z in ("start", "stop", "num"))
            if a is not None and b is not None and n is not None:
                a, b = self.scalar(a), self.scalar(b)
                step = mk("bin", "/", mk("bin", "-", b, a), mk("bin", "-", n, C(1)))
                return mk("bin", "+", a, step) if k == 1 else mk("bin", "-", b, step)
        if E.op == "call" and short(E) in ("concatenate", "hstack") and k in (0, -1):
            x = unwrap(arg1(E))
            if isinstance(x, Term) and x.op == "list" and x.a[0]:
                return self.end(x.a[0][k], k)
        return mk("item", E, C(k))

    def end(self, t, k):
        """first (0) or last (-1) element of an array term, None if unknown"""
        t = unwrap(t)
        if not isinstance(t, Term):
            return None
        if t.op == "c" or num(t) is not None:
            return t
        if t.op == "call":
            n = short(t)
            if n in ("linspace", "geomspace", "concatenate", "hstack"):
                return self.el(t, k)
            if n == "diff" and len(t.a[1]) == 1:
                E = arg1(t)
                return mk("bin", "-", self.el(E, 1), self.el(E, 0)) if k == 0 else mk("bin", "-", self.el(E, -1), self.el(E, -2))
            if n in ("min", "max", "amin", "amax", "len"):
                return self.scalar(t)
            return self.el(t, k)
        if t.op == "list" and t.a[0]:
            return self.end(t.a[0][k], k)
        if t.op == "bin":
            x, y = self.end(t.a[1], k), self.end(t.a[2], k)
            return None if x is None or y is None else mk("bin", t.a[0], x, y)
        if t.op == "un":
            x = self.end(t.a[1], k)
            return None if x is None else mk("un", t.a[0], x)
        if t.op == "item" and isinstance(t.a[1], Term):
            sl = t.a[1]
            if num(sl) is not None:
                return self.scalar(t)
            if sl.op == "slice":
                b = [None if z is None or isinstance(z, Term) and z.op == "c" and z.a[0] is None else num(z) if isinstance(z, Term) else z for z in sl.a]
                if any(z is None and not (y is None or isinstance(y, Term) and y.op == "c" and y.a[0] is None) for z, y in zip(b, sl.a)):
                    return None
                lo, hi, st = (b + [None] * 3)[:3]
                st = 1 if st is None else st
                if st == 1:
                    i = int(lo or 0) if k == 0 else -1 if hi is None else int(hi) - 1
                elif st == -1 and lo is None and hi is None:
                    i = -1 if k == 0 else 0
                else:
                    return None
                if i in (0, -1):
                    return self.end(t.a[0], i)
                return self.deep(t.a[0], i)
            return None
        if t.op in ("opt", "col", "unk"):
            return t
        return self.el(t, k)

    def deep(self, t, i):
        t = unwrap(t)
        if t.op == "bin":
            x, y = self.deep(t.a[1], i), self.deep(t.a[2], i)
            return None if x is None or y is None else mk("bin", t.a[0], x, y)
        if t.op == "c" or num(t) is not None:
            return t
        return self.el(t, i)

    def scalar(self, t):
        """rewrite elements and extremes of (sorted) positions inside a scalar term"""
        t = unwrap(t)
        if not isinstance(t, Term):
            return t
        if t.id in self.memo:
            return self.memo[t.id]
        r = t
        if t.op == "item" and isinstance(t.a[1], Term) and num(t.a[1]) in (0, -1):
            x = unwrap(t.a[0])
            if isinstance(x, Term) and (x.op == "bin" or x.op == "call" and short(x) in ("linspace", "concatenate") or x.op == "item" and isinstance(x.a[1], Term) and x.a[1].op == "slice"):
                q = self.end(x, int(num(t.a[1])))
                r = q if q is not None else t
        elif t.op == "call" and short(t) in ("min", "max", "amin", "amax") and len(t.a[1]) == 1 and isinstance(arg1(t), Term):
            x = unwrap(arg1(t))
            if self.position(x):
                q = self.end(x, 0 if short(t).endswith("min") else -1)
                r = q if q is not None else t
        elif t.op == "bin":
            r = mk("bin", t.a[0], self.scalar(t.a[1]), self.scalar(t.a[2]))
        self.memo[t.id] = r
        return r

    def position(self, x):
        """an increasing array of positions"""
        if x.op == "call" and short(x) in ("linspace", "sort", "unique"):
            return True
        if x.op == "call" and short(x) in ("concatenate", "hstack"):
            return True
        if x.op == "bin":
            return all(not isinstance(z, Term) or num(z) is not None or self.position(z) for z in x.a[1:3]) and x.a[0] in ("+", "*", "/")
        if x.op == "item" and isinstance(x.a[1], Term) and x.a[1].op == "slice":
            return self.position(unwrap(x.a[0]))
        return False

    # ------------------------------------------------------------------ positions of densities
    def of(self, t):
        """('bins', edges) | ('at', positions) | ('bad', why) | None"""
        t = unwrap(t)
        if not isinstance(t, Term):
            return None
        if t.id in self.memo and isinstance(self.memo[t.id], tuple):
            return self.memo[t.id][0]
        r = self.of_(t)
        self.memo[t.id] = (r,)
        return r

    def of_(self, t):
        if t.op == "call":
            n = short(t)
            if n == "kde_at":
                x = callarg(t, "x")
                return ("at", unwrap(x)) if x is not None else None
            if n == "interp":
                return ("at", callarg(t, "x")) if self.of(callarg(t, "fp")) is not None else None
            if n in ("concatenate", "hstack"):
                x = unwrap(arg1(t))
                ps = [self.of(z) if isinstance(z, Term) else None for z in x.a[0]] if isinstance(x, Term) and x.op == "list" else []
                known = [i for i, q in enumerate(ps) if q is not None]
                if known and known[0] > 0 and ps[known[0]][0] == "cut" and ps[known[0]][2] == "tail":
                    return ("bad", "shifted by the values put before it")
                return None
            if n in KEEP and t.a[1]:
                qs = [self.of(v) for _, v in t.a[1] if isinstance(v, Term)]
                qs = [q for q in qs if q is not None]
                return qs[0] if qs else None
            return None
        if t.op == "item" and isinstance(t.a[1], Term):
            x = unwrap(t.a[0])
            if isinstance(x, Term) and x.op == "call" and short(x) == "histogram" and num(t.a[1]) == 0:
                b = callarg(x, "bins")
                return ("bins", unwrap(b)) if isinstance(b, Term) and self.arrayish(unwrap(b)) else ("bins", mk("item", x, C(1)))
            if num(t.a[1]) is not None:
                return None
            q = self.of(x) if isinstance(x, Term) else None
            if q is None or q[0] == "bad":
                return q
            if t.a[1].op == "slice":
                p = self.centres(q[1]) if q[0] == "bins" else q[1]
                sl = t.a[1].a
                none = lambda z: z is None or isinstance(z, Term) and z.op == "c" and z.a[0] is None  # noqa: E731
                if len(sl) >= 2 and none(sl[0]) and isinstance(sl[1], Term) and (num(sl[1]) or 0) < 0 and (len(sl) < 3 or none(sl[2])):
                    return ("cut", mk("item", p, t.a[1]), "tail")
                return ("at", mk("item", p, t.a[1]))
            return None
        if t.op == "apply" and isinstance(t.a[0], Term) and t.a[0].op == "call" and short(t.a[0]) in ("interp1d", "InterpolatedUnivariateSpline", "UnivariateSpline", "PchipInterpolator"):
            if self.of(callarg(t.a[0], "y")) is None:
                return None
            return ("at", unwrap(t.a[1][0])) if t.a[1] else None
        if t.op == "bin":
            qs = [self.of(z) for z in t.a[1:3] if isinstance(z, Term)]
            qs = [q for q in qs if q is not None]
            return qs[0] if qs else None
        if t.op in ("un", "setitem", "reshape", "ravel"):
            return next((q for z in t.a if isinstance(z, Term) for q in [self.of(z)] if q is not None), None)
        return None

    def arrayish(self, b):
        return b.op in ("bin", "list", "item") or b.op == "call" and short(b) in ("linspace", "concatenate", "hstack", "sort", "unique", "arange")

    def centres(self, E):
        s = lambda a, b: mk("item", E, mk("slice", C(a), C(b), C(None)))  # noqa: E731
        return mk("bin", "*", C(0.5), mk("bin", "+", s(None, -1), s(1, None)))

    # ------------------------------------------------------------------ comparison
    def atoms(self, *ts):
        out = set()
        for t in ts:
            if t is None:
                continue
            n = self.N(t)
            for p in (n.n, n.d):
                for m in p:
                    out |= {a for a, _ in m} if isinstance(m, (tuple, frozenset)) else set()
        return out

    def fits(self, q, x, left=False):
        """is x the position array of densities at q: True, False (definitely not) or None"""
        x = unwrap(x)
        if not isinstance(x, Term):
            return None
        if q[0] == "bad":
            return False
        p = self.centres(q[1]) if q[0] == "bins" else unwrap(q[1])
        if x is p or self.N(x).same(self.N(p)):
            return True
        if left and q[0] == "bins" and self.N(x).same(self.N(mk("item", q[1], mk("slice", C(None), C(-1), C(None))))):
            return True
        # the ends
        e = [(self.end(p, k), self.end(x, k)) for k in (0, -1)]
        if any(a is None or b is None for a, b in e):
            return None
        same = [self.N(self.flat(a)).same(self.N(self.flat(b))) for a, b in e]
        if all(same):
            return None
        allowed = self.atoms(*[self.flat(a) for a, _ in e])
        if q[0] == "bins":
            allowed |= self.atoms(*[self.flat(self.el(q[1], k)) for k in (0, 1, -1, -2)])
        for z in subterms(p):
            if z.op == "call" and short(z) in ("linspace", "concatenate", "hstack", "sort", "unique") or z.op == "item" and num(z.a[1]) in (0, -1, 1, -2) and isinstance(z.a[0], Term):
                z = z.a[0] if z.op == "item" else z
                allowed |= self.atoms(*[self.flat(self.el(z, k)) for k in (0, 1, -1, -2)])
        if self.atoms(*[self.flat(b) for _, b in e]) <= allowed:
            return False
        # one end is limited by the other, with another value it may take instead
        for a, b in e + [(b, a) for a, b in e]:
            if b.op == "pick" and b.a[0] in ("min", "max") and isinstance(b.a[1], tuple) and len(b.a[1]) == 2:
                alt = [self.N(self.flat(z)).same(self.N(self.flat(a))) for z in b.a[1] if isinstance(z, Term)]
                if alt.count(True) == 1 and len(alt) == 2:
                    return False
        return None

    def flat(self, t):
        """expand elements of linspace's ends once more"""
        for _ in range(3):
            n = self.scalar(t)
            if n is t:
                break
            t = n
        return t


def C36(ctx):
    """Every array of densities (weighted histogram, kernel estimate, anything elementwise, filtered, interpolated or cumulated from them) is given the positions its entries lie at: the midpoints of its
    own bins, the points it was evaluated or interpolated at. Wherever densities meet positions (curves, filled areas, histograms, surfaces, interpolators, integrals, peak and quantile look-ups)
    the position array must be that one; it is a violation when its first or last entry is another combination of the same bin edges or grid ends."""
    full = ctx.tier == "thorough"

    def stub(W):
        try:
            K = W.cls("kde.MegKDE")
        except Exception:  # noqa: BLE001
            return
        if "evaluate" in K.ns:
            def ev(a, kw):
                a = [x for x in a if not isinstance(x, Inst)]
                p = a[0] if a else kw.get("data")
                return SV(mk("call", "kde_at", (("x", to_term(p)),)), "array", nd=1)
            K.ns["evaluate"] = Native("evaluate", ev)

    def pair(s, P, x, y, what, run, site, left=False):
        """positions x against densities y; True if judged"""
        q = P.of(y)
        if q is None or not isinstance(x, Term):
            return False
        s.ob("densities compared with their positions")
        r = P.fits(q, x, left)
        if r is False:
            why = q[1] if q[0] == "bad" else f"they belong to {'the midpoints of ' + show(q[1], 3)[:70] if q[0] == 'bins' else show(q[1], 3)[:90]}"
            st = site or where(y)
            s.bad(f"{what}:{st[1] if isinstance(st, tuple) else st}", f"{run.name}: {what}: densities are put at {show(unwrap(x), 3)[:90]}; {why}", st)
        elif r is None:
            s.ob("positions with matching ends")
        return True

    def nodes(s, P, t, run, seen, site):
        for z in subterms(t):
            if z.id in seen:
                continue
            seen.add(z.id)
            if z.op == "call":
                n = short(z)
                if n in ("interp1d", "InterpolatedUnivariateSpline", "UnivariateSpline", "PchipInterpolator"):
                    x, y = callarg(z, "x"), callarg(z, "y")
                    if not pair(s, P, x, y, "interpolation", run, None) and isinstance(x, Term):
                        pair(s, P, y, x, "quantile interpolation", run, None)
                elif n == "interp":
                    x, y = callarg(z, "xp"), callarg(z, "fp")
                    if not pair(s, P, x, y, "interpolation", run, None) and isinstance(x, Term):
                        pair(s, P, y, x, "quantile interpolation", run, None)
                elif n in ("simpson", "simps", "trapezoid", "trapz"):
                    x, y = callarg(z, "x"), callarg(z, "y")
                    if x is not None:
                        pair(s, P, x, y, "integral", run, None)
            elif z.op == "item" and isinstance(z.a[1], Term) and z.a[1].op == "call" and short(z.a[1]) in ("argmax", "searchsorted", "nanargmax") and isinstance(z.a[0], Term):
                y = arg1(z.a[1])
                if P.of(z.a[0]) is None:
                    pair(s, P, z.a[0], y, "peak" if "arg" in short(z.a[1]) else "quantile look-up", run, None)

    def axes2(P, z):
        """[(kind, payload)] position axes of the two-dimensional densities inside z"""
        out = []
        for t in subterms(z):
            if t.op == "call" and short(t) == "kde_at":
                pts = callarg(t, "x")
                todo, seen = [pts], set()
                while todo:
                    q = todo.pop()
                    if not isinstance(q, Term) or q.id in seen:
                        continue
                    seen.add(q.id)
                    if q.op == "call" and short(q) == "linspace":
                        out.append(("at", q))
                        continue
                    for a in q.a:
                        st = [a]
                        while st:
                            y = st.pop()
                            if isinstance(y, Term):
                                todo.append(y)
                            elif isinstance(y, tuple):
                                st.extend(y)
        if out:
            return out
        for t in subterms(z):
            if t.op == "call" and short(t) == "histogram2d":
                b = callarg(t, "bins")
                if isinstance(b, Term) and b.op == "list" and len(b.a[0]) == 2:
                    out += [("bins", unwrap(q)) for q in b.a[0] if isinstance(q, Term)]
        return out

    def judge(run, s):
        if crashed(run, s):
            return
        W = run.W
        P = Pos()
        seen = set()
        for e in W.events("ext"):
            if e.name not in DRAW:
                continue
            a = Artist(e)
            A = a.args
            what = f"{e.name} call"
            for t in A.values():
                if isinstance(t, Term):
                    nodes(s, P, t, run, seen, e.site)
            if e.name in ("plot", "step", "scatter"):
                x, y = A.get("x"), A.get("y")
                if isinstance(x, Term) and isinstance(y, Term):
                    if not pair(s, P, x, y, what, run, e.site):
                        pair(s, P, y, x, what, run, e.site)
            elif e.name in ("fill_between", "fill_betweenx"):
                x = A.get("x") if e.name == "fill_between" else A.get("y")
                for k in ("y1", "y2", "x1", "x2"):
                    if isinstance(A.get(k), Term) and isinstance(x, Term):
                        pair(s, P, x, A[k], what, run, e.site)
            elif e.name == "hist":
                w, x, b = A.get("weights"), A.get("x"), A.get("bins")
                if isinstance(w, Term) and pair(s, P, x, w, what, run, e.site, left=True):
                    q = P.of(w)
                    if q[0] == "bins" and isinstance(b, Term) and P.arrayish(unwrap(b)) and unwrap(b) is not unwrap(q[1]) and P.fits(("at", q[1]), b) is False:
                        s.bad(f"{what} bins", f"{run.name}: a histogram is drawn in other bins ({show(b, 3)[:80]}) than it was counted in", e.site)
            elif e.name == "stairs":
                w, b = (A.get("values") or A.get("x") or A.get("0")), (A.get("edges") or A.get("y") or A.get("1"))
                q = P.of(w) if isinstance(w, Term) else None
                if q is not None and q[0] == "bins" and isinstance(b, Term):
                    s.ob("densities compared with their positions")
                    if P.fits(("at", q[1]), b) is False:
                        s.bad(f"{what} bins", f"{run.name}: a histogram is drawn in other bins ({show(b, 3)[:80]}) than it was counted in", e.site)
            elif e.name in ("contour", "contourf", "pcolormesh"):
                Z = A.get("Z")
                if not isinstance(Z, Term):
                    continue
                ax = axes2(P, Z)
                if not ax:
                    continue
                for k in ("X", "Y"):
                    x = A.get(k)
                    if not isinstance(x, Term):
                        continue
                    s.ob("surfaces compared with their positions")
                    r = [P.fits(q, x) for q in ax]
                    if True not in r and False in r:
                        q = ax[r.index(False)]
                        s.bad(f"{what} {k}", f"{run.name}: {what}: the {k} positions are {show(unwrap(x), 3)[:90]}; the surface was computed at {'the midpoints of ' if q[0] == 'bins' else ''}{show(q[1], 3)[:90]}", e.site)
        for n, t in getattr(W, "outputs", None) or ():
            nodes(s, P, t, run, seen, None)

    def figs(W, m, o, **k):
        stub(W)
        scene(W, m, opts=(o, {}), **k)

    def free(W, o):
        stub(W)
        ch = W.chain("X", label="X", bar_shade=True, shade=True, shade_alpha=0.5, color="#111111", **o)
        W.consumer(ch)
        W.mark()
        free_plots(W, ch)

    def summ(W, o, st):
        stub(W)
        summary_outputs(W, o, st)

    OPTS = {"histogram": {}, "unsmoothed": {"smooth": 0}, "kernel": {"kde": 0.8}, "power": {"power": 2.0}, "grid": {"grid": True}, "smoothed grid": {"grid": True, "smooth": 2}}
    for n, o in OPTS.items():
        oo = {**o, "bar_shade": True}
        for m in ("plot", "plot_distributions", "plot_summary"):
            ctx.queue(f"{m} {n}", lambda W, m=m, oo=oo: figs(W, m, oo), judge)
        ctx.queue(f"flipped plot {n}", lambda W, oo=oo: figs(W, "plot", oo, cfg={"flip": True}), judge)
        ctx.queue(f"drawing functions {n}", lambda W, o=o: free(W, o), judge)
        for st in STATS:
            ctx.queue(f"{st} {n}", lambda W, o=o, st=st: summ(W, o, st), judge)
    ctx.flush()
    for n in ("histogram", "kernel", "unsmoothed") + (("grid", "power") if full else ()):
        o = OPTS[n]
        ctx.explore(f"drawing functions {n}, every path", lambda W, o=o: free(W, o), judge)
        if n != "kernel" or full:
            ctx.explore(f"flipped histograms {n}, every path", lambda W, o=o: figs(W, "plot", {**o, "bar_shade": True}, cols=(("A", "B"),), cfg={"flip": True}), judge)
        ctx.explore(f"plot_distributions {n}, every path", lambda W, o=o: figs(W, "plot_distributions", {**o, "bar_shade": True}, cols=(("A",),)), judge)
        for st in STATS:
            ctx.explore(f"{st} {n}, every path", lambda W, o=o, st=st: summ(W, o, st), judge)


RULES = {"C36": C36}
