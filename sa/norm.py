"""Rational normal form of def-use terms: polynomials with rational coefficients over canonical atoms.

Sums over samples are linear, extrema commute with positive factors and constants, interpolation is affine in its values; everything
else stays an opaque atom identified by the normal form of its arguments. Two terms with equal normal form denote the same number."""
from __future__ import annotations

from fractions import Fraction as Fr

from calc import Rows, arg1, short
from terms import Term, callarg, num

WRAP = {"float", "asarray", "array", "ascontiguousarray", "float64", "asfarray", "atleast_1d", "to_numpy", "squeeze", "copy"}


class Norm:
    def __init__(self):
        self.ids = {}
        self.info = []  # key, rowdep
        self.memo = {}
        self.rows = Rows(lambda t: None)

    # ------------------------------------------------------------------ atoms
    def atom(self, key, rowdep=False):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.info)
            self.info.append((key, rowdep))
        return Rat({((i, Fr(1)),): Fr(1)}, ONE)

    def key(self, r):
        return r.canon()

    def rowdep_mono(self, m):
        return any(self.info[i][1] for i, _ in m)

    # ------------------------------------------------------------------ terms
    def __call__(self, t):
        if not isinstance(t, Term):
            return self.atom(("raw", repr(t)))
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.step(t)
        return r

    def args(self, t):
        return tuple((k, self.argkey(v)) for k, v in t.a[1])

    def argkey(self, v):
        if isinstance(v, Term):
            return self(v).canon()
        if isinstance(v, tuple):
            return tuple(self.argkey(x) for x in v)
        return repr(v)

    def opaque(self, t):
        rd = self.rows(t)
        return self.atom((t.op,) + tuple(self.argkey(x) for x in t.a), rd is not None)

    def step(self, t):
        n = num(t)
        if n is not None:
            if n != n or n in (float("inf"), float("-inf")):
                return self.atom(("const", repr(n)))
            return const(Fr(n))
        op = t.op
        if op == "c":
            return self.atom(("const", repr(t.a[0])))
        if op == "col":
            return self.atom(("col",) + t.a, True)
        if op == "bin":
            o, a, b = t.a[0], t.a[1], t.a[2]
            if o in ("+", "-", "*", "/"):
                x, y = self(a), self(b)
                if o == "+":
                    return x.add(y)
                if o == "-":
                    return x.add(y.scale(Fr(-1)))
                if o == "*":
                    return x.mul(y)
                return x.mul(y.inv()) if not y.iszero() else self.opaque(t)
            if o == "**":
                e = self(b).asconst()
                if e is not None:
                    return self.power(self(a), e, t)
            return self.opaque(t)
        if op == "un" and t.a[0] in ("-", "+"):
            x = self(t.a[1])
            return x.scale(Fr(-1)) if t.a[0] == "-" else x
        if op == "item":
            return self.item(t)
        if op == "pick":
            return self.pick(t.a[0], t.a[1], t)
        if op == "call":
            return self.call(t)
        return self.opaque(t)

    def power(self, x, e, t):
        if e.denominator == 1 and 0 <= e <= 4 and e >= 0:
            r = const(Fr(1))
            for _ in range(int(e)):
                r = r.mul(x)
            return r
        m = x.mono()
        if m is not None:
            mm, cf = m
            if cf == 1 or e.denominator == 1:
                return Rat({tuple((i, q * e) for i, q in mm): cf ** int(e) if e.denominator == 1 else Fr(1)}, ONE)
        return self.atom(("pow", x.canon(), e), any(self.rowdep_mono(k) for k in list(x.n) + list(x.d)))

    def split(self, r):
        """row-independent part and row-dependent part of a polynomial with row-independent denominator"""
        if any(self.rowdep_mono(m) for m in r.d):
            return None
        a = {m: q for m, q in r.n.items() if not self.rowdep_mono(m)}
        b = {m: q for m, q in r.n.items() if self.rowdep_mono(m)}
        return Rat(a, r.d), Rat(b, r.d)

    def total(self, r, t):
        """sum over the samples"""
        if len(r.d) == 1 and any(self.rowdep_mono(m) for m in r.d):
            (dm, dq), = r.d.items()
            r = Rat({mulmono(m, tuple((i, -e) for i, e in dm)): q / dq for m, q in r.n.items()}, ONE)
        if any(self.rowdep_mono(m) for m in r.d):
            return self.atom(("sum", r.canon()))
        out = const(Fr(0))
        for m, q in r.n.items():
            inner = tuple((i, e) for i, e in m if self.info[i][1])
            outer = tuple((i, e) for i, e in m if not self.info[i][1])
            if not inner:
                s = self.atom(("count",))
            else:
                s = self.atom(("sum", Rat({inner: Fr(1)}, ONE).canon()))
            out = out.add(Rat({outer: q}, r.d).mul(s))
        return out

    def extremum(self, which, r, t):
        sp = self.split(r)
        if sp is None:
            return self.opaque(t)
        a, b = sp
        if not b.n:
            return a
        lead = b.n[min(b.n)]
        if lead < 0:
            which = {"max": "min", "min": "max"}[which]
        inner = Rat({m: q / lead for m, q in b.n.items()}, ONE)
        ext = self.atom((which, inner.canon()))
        return a.add(Rat({(): lead}, b.d).mul(ext)) if b.d == ONE else self.opaque(t)

    def pick(self, which, xs, t):
        ks = []
        for x in xs:
            if not isinstance(x, Term):
                return self.opaque(t)
            ks.append(self(x).canon())
        ks = tuple(sorted(set(ks), key=repr))
        if len(ks) == 1:
            return self(xs[0])
        return self.atom(("pick", which, ks))

    def item(self, t):
        b, k = t.a
        if not isinstance(b, Term):
            return self.opaque(t)
        kn = num(k) if isinstance(k, Term) else None
        if kn is not None:
            i = int(kn)
            if b.op == "list" and -len(b.a[0]) <= i < len(b.a[0]):
                return self(b.a[0][i])
            if b.op == "bin" and b.a[0] in ("+", "-", "*", "/"):
                from terms import mk

                f = [mk("item", x, k) if self.vector(x) else x for x in b.a[1:3]]
                return self(mk("bin", b.a[0], *f))
            if b.op == "call" and short(b) in ("asarray", "array", "atleast_1d") and isinstance(arg1(b), Term):
                from terms import mk

                return self(mk("item", arg1(b), k))
            if b.op == "call" and short(b) == "griddata":
                r = self.affine(b, "values")
                if r is not None:
                    return r
        return self.opaque(t)

    def vector(self, x):
        return isinstance(x, Term) and num(x) is None and (x.op in ("list", "col") or self.rows(x) is not None or x.op == "call" and short(x) in ("griddata", "array", "asarray"))

    def affine(self, t, name):
        v = callarg(t, name)
        if not isinstance(v, Term):
            return None
        sp = self.split(self(v))
        if sp is None:
            return None
        a, b = sp
        if not b.n or b.d != ONE:
            return None
        lead = b.n[min(b.n)]
        inner = Rat({m: q / lead for m, q in b.n.items()}, ONE)
        at = self.atom((short(t), inner.canon()) + tuple((k, self.argkey(x)) for k, x in t.a[1] if k not in (name, "method", "rescale", "fill_value")))
        return a.add(at.scale(lead))

    def call(self, t):
        n = short(t)
        x = arg1(t)
        if n in WRAP and isinstance(x, Term):
            return self(x)
        ax = callarg(t, "axis")
        noaxis = ax is None or not isinstance(ax, Term) or (ax.op == "c" and ax.a[0] in (None, 0))
        if n == "sqrt" and isinstance(x, Term):
            return self.power(self(x), Fr(1, 2), t)
        if n in ("square",) and isinstance(x, Term):
            return self(x).mul(self(x))
        if n in ("negative",) and isinstance(x, Term):
            return self(x).scale(Fr(-1))
        if n == "power":
            e = self(t.a[1][1][1]).asconst() if len(t.a[1]) > 1 and isinstance(t.a[1][1][1], Term) else None
            if e is not None and isinstance(x, Term):
                return self.power(self(x), e, t)
        if n in ("sum", "nansum") and isinstance(x, Term) and noaxis:
            return self.total(self(x), t)
        if n in ("dot", "inner", "vdot") and len(t.a[1]) == 2 and all(isinstance(v, Term) and v.op != "frame" for _, v in t.a[1]):
            return self.total(self(t.a[1][0][1]).mul(self(t.a[1][1][1])), t)
        if n == "average" and isinstance(x, Term) and noaxis:
            w = callarg(t, "weights")
            if isinstance(w, Term) and not (w.op == "c" and w.a[0] is None):
                wr = self(w)
                if x.op == "frame":
                    return self.opaque(t)
                return self.total(self(x).mul(wr), t).mul(self.total(wr, t).inv())
            return self.total(self(x), t).mul(self.atom(("count",)).inv())
        if n in ("mean", "nanmean") and isinstance(x, Term) and noaxis and x.op not in ("frame", "list"):
            return self.total(self(x), t).mul(self.atom(("count",)).inv())
        if n in ("max", "amax", "nanmax", "min", "amin", "nanmin") and isinstance(x, Term) and noaxis:
            w = "max" if "max" in n else "min"
            if x.op == "list":
                return self.pick(w, x.a[0], t)
            return self.extremum(w, self(x), t)
        if n == "griddata":
            r = self.affine(t, "values")
            if r is not None:
                return r
        if len(t.a[1]) == 1:
            return self.atom((n, self.argkey(t.a[1][0][1])), self.rows(t) is not None)
        return self.atom((n,) + self.args(t), self.rows(t) is not None)


# ---------------------------------------------------------------------- rational functions
def mulmono(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted((i, e) for i, e in d.items() if e))


def pmul(p, q):
    out = {}
    for m, x in p.items():
        for k, y in q.items():
            mk_ = mulmono(m, k)
            out[mk_] = out.get(mk_, 0) + x * y
    return {m: x for m, x in out.items() if x}


def padd(p, q):
    out = dict(p)
    for m, x in q.items():
        out[m] = out.get(m, 0) + x
    return {m: x for m, x in out.items() if x}


ONE = {(): Fr(1)}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        if not n:
            d = ONE
        elif len(d) == 1 and d != ONE:
            (m, q), = d.items()
            inv = tuple((i, -e) for i, e in m)
            n = {mulmono(k, inv): v / q for k, v in n.items()}
            d = ONE
        elif n == d:
            n, d = ONE, ONE
        self.n = n
        self.d = d

    def add(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def mul(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        return Rat(self.d, self.n)

    def scale(self, f):
        return Rat({m: q * f for m, q in self.n.items()}, self.d)

    def iszero(self):
        return not self.n

    def same(self, o):
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    def asconst(self):
        if not self.n:
            return Fr(0)
        if self.d == ONE and set(self.n) == {()}:
            return self.n[()]
        return None

    def mono(self):
        if self.d == ONE and len(self.n) == 1:
            return next(iter(self.n.items()))
        return None

    def canon(self):
        d = self.d
        lead = d[min(d)]
        f = lambda p: tuple(sorted((m, q / lead) for m, q in p.items()))  # noqa: E731
        return (f(self.n), f(d))


def const(q):
    return Rat({(): q} if q else {}, ONE)


def describe(N, r, depth=2):
    """readable form"""
    def atom(i):
        k = N.info[i][0]
        if k[0] == "col":
            return f"{k[1]}[{k[2]}]"
        if depth <= 0:
            return k[0]
        if k[0] in ("max", "min", "sum"):
            return f"{k[0]}({poly(k[1][0])})"
        if k[0] == "pick":
            return f"{k[1]}{{…{len(k[2])}}}"
        return str(k[0]) if k[0] != "opt" else ".".join(str(x).strip("'") for x in k[1:])

    def poly(p):
        return " + ".join((f"{float(q):g}" if q != 1 or not m else "") + "".join("·" + atom(i) + (f"^{e}" if e != 1 else "") for i, e in m) for m, q in p) or "0"

    n, d = r.canon()
    return poly(n) + ("" if d == (((), Fr(1)),) else " / (" + poly(d) + ")")
