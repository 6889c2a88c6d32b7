"""Value classes: which kinds of entries (positive, zero, negative, NaN, infinite) occur in a column.

A column leaf is described by the tuple of classes present in it, a scalar leaf by one class; each class is carried by one
representative, so that "this input is accepted" is an existential claim with the representatives as witness. Operations
the domain does not know are left undecided."""
from __future__ import annotations

import math

from terms import Term, leaves, num

REP = {"pos": 3.0, "zero": 0.0, "neg": -1.0, "nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}


class No(Exception):
    """not exact on representatives"""


class Arr:
    def __init__(self, v):
        self.v = v  # nested tuple of floats/bools, 1-D or 2-D (tuple of Arr)

    def map(self, f):
        return Arr(tuple(x.map(f) if isinstance(x, Arr) else f(x) for x in self.v))

    def flat(self):
        for x in self.v:
            if isinstance(x, Arr):
                yield from x.flat()
            else:
                yield x


def zipmap(f, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.v) != len(b.v):
            raise No("shape")
        return Arr(tuple(zipmap(f, x, y) for x, y in zip(a.v, b.v)))
    if isinstance(a, Arr):
        return a.map(lambda x: f(x, b))
    if isinstance(b, Arr):
        return b.map(lambda y: f(a, y))
    return f(a, b)


def isbool(x):
    return isinstance(x, bool)


CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
UNARY = {
    "isfinite": math.isfinite, "isnan": math.isnan, "isinf": math.isinf, "isna": math.isnan, "isnull": math.isnan, "notna": lambda x: not math.isnan(x),
    "notnull": lambda x: not math.isnan(x), "isneginf": lambda x: x == -math.inf, "isposinf": lambda x: x == math.inf,
}
SAME = {"asarray", "array", "to_numpy", "ravel", "copy", "atleast_1d", "atleast_2d", "asanyarray", "ascontiguousarray", "values", "flatten", "squeeze", "float", "astype", "reshape", "transpose"}


class Classes:
    """leaf classes + evaluation of condition terms"""

    def __init__(self, world):
        self.W = world
        self.leaf = {}
        self.unknown = []  # conditions on the described columns that could not be evaluated
        self.asked = []
        world.I.classes = self

    def column(self, sv, *kinds):
        self.leaf[sv.term] = Arr(tuple(REP[k] for k in kinds))

    def scalar(self, term, value):
        self.leaf[term] = value

    def touches(self, t):
        ls = leaves(t)
        return not ls or any(x in self.leaf for x in ls)

    def truth(self, t):
        if not self.touches(t):
            return None
        try:
            r = self.ev(t)
            if isinstance(r, Arr):
                raise No("array truth")
        except No as e:
            self.unknown.append((t, str(e)))
            return None
        except Exception as e:  # noqa: BLE001
            self.unknown.append((t, repr(e)))
            return None
        self.asked.append((t, bool(r)))
        return bool(r)

    def ev(self, t):
        if not isinstance(t, Term):
            return t
        if t in self.leaf:
            return self.leaf[t]
        n = num(t)
        if n is not None:
            return n
        op, a = t.op, t.a
        if op == "c":
            return a[0]
        if op == "not":
            r = self.ev(a[0])
            return r.map(lambda x: not x) if isinstance(r, Arr) else (not r)
        if op in ("and", "or"):
            rs = [self.ev(x) for x in a]
            return all(rs) if op == "and" else any(rs)
        if op == "cmp":
            return zipmap(CMP[a[0]], self.ev(a[1]), self.ev(a[2])) if a[0] in CMP else self.no(a[0])
        if op in ("ravel", "reshape", "T", "slice0"):
            r = self.ev(a[0])
            return r
        if op == "frame":
            return Arr(tuple(self.ev(x) for x in a[1]))
        if op == "list":
            return Arr(tuple(self.ev(x) for x in (a[0] if isinstance(a[0], tuple) else a)))
        if op == "bcast":
            return self.ev(a[0])
        if op in ("item", "elem", "part", "row", "rows"):
            # a fixed part of the rows: the offending entry may lie outside it
            k = a[1] if len(a) > 1 else None
            if isinstance(k, Term) and leaves(k):
                self.no(op)
            r = self.ev(a[0])
            if isinstance(r, Arr) and r.v and not isinstance(r.v[0], Arr):
                if isinstance(k, Term) and k.op == "slice":
                    lo, hi, st = (x.a[0] if x.op == "c" else num(x) for x in k.a)
                    if lo in (None, 0) and hi is None and st in (None, 1, -1):
                        return r
                    return Arr(r.v[:1])
                return Arr(r.v[:1]) if op in ("part", "rows") else r.v[0]
            self.no(op)
        if op == "un":
            f = a[0]
            r = self.ev(a[1])
            if f in ("~", "not"):
                g = lambda x: not x if isbool(x) else self.no("~")  # noqa: E731
            elif f == "-":
                g = lambda x: -x  # noqa: E731
            elif f == "abs":
                g = abs
            else:
                self.no(f)
            return r.map(g) if isinstance(r, Arr) else g(r)
        if op == "bin":
            f, x, y = a[0], self.ev(a[1]), self.ev(a[2])
            if f in ("&", "|"):
                return zipmap((lambda p, q: bool(p and q)) if f == "&" else (lambda p, q: bool(p or q)), x, y)
            if f == "%":
                if isinstance(x, Arr) or isinstance(y, Arr):
                    self.no("%")
                return x % y
            if f == "//":
                return x // y
            if f in ("-", "*", "+"):
                return zipmap({"-": lambda p, q: p - q, "*": lambda p, q: p * q, "+": lambda p, q: p + q}[f], x, y)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}.get(f, lambda: self.no(f))()
            self.no(f)
        if op == "call":
            name = a[0].split(".")[-1]
            args = dict(a[1])
            x = args.get("a") if "a" in args else (args.get("x") if "x" in args else (a[1][0][1] if a[1] else None))
            if x is None:
                self.no(name)
            r = self.ev(x)
            if name in UNARY:
                g = UNARY[name]
                return r.map(lambda v: g(float(v))) if isinstance(r, Arr) else g(float(r))
            if name in ("all", "any", "alltrue", "sometrue"):
                f = all if name.startswith("al") else any
                if not isinstance(r, Arr):
                    return bool(r)
                ax = args.get("axis")
                if ax is not None and r.v and isinstance(r.v[0], Arr) and num(ax) is not None:
                    return Arr(tuple(f(q.flat()) for q in r.v))
                return f(r.flat())
            if name in ("invert", "logical_not"):
                return r.map(lambda v: not v if isbool(v) else self.no("invert")) if isinstance(r, Arr) else (not r)
            if name in ("logical_and", "logical_or"):
                q = self.ev(list(args.values())[1])
                return zipmap((lambda p, s: bool(p and s)) if name.endswith("and") else (lambda p, s: bool(p or s)), r, q)
            if name in ("min", "max", "amin", "amax", "nanmin", "nanmax"):
                vs = list(r.flat()) if isinstance(r, Arr) else [r]
                nan = [v for v in vs if isinstance(v, float) and math.isnan(v)]
                fin = [v for v in vs if not (isinstance(v, float) and math.isnan(v))]
                if nan and not name.startswith("nan"):
                    return float("nan")
                return (min if "min" in name else max)(fin)
            if name in ("sum", "count_nonzero"):
                vs = list(r.flat()) if isinstance(r, Arr) else [r]
                if all(isbool(v) for v in vs):
                    return sum(vs)
                return sum(vs) if name == "sum" else sum(1 for v in vs if v != 0)
            if name == "mean":
                vs = list(r.flat()) if isinstance(r, Arr) else [r]
                return sum(vs) / len(vs)
            if name in ("abs", "absolute", "fabs"):
                return r.map(abs) if isinstance(r, Arr) else abs(r)
            if name in ("int", "float", "bool"):
                return {"int": int, "float": float, "bool": bool}[name](r)
            if name in SAME:
                return r
            self.no(name)
        self.no(op)

    def no(self, why):
        raise No(why)
