"""Representatives of partition cells: the value a term takes at the representative point of a cell of the input space.

Used only to select which path of the source belongs to a cell, and to order terms inside the cell; what the path computes is judged on the terms."""
from __future__ import annotations

import math

from terms import Term, num


class Unknown(Exception):
    pass


def npround(x, d=0):
    f = 10.0 ** d
    return round(x * f) / f if d > 0 else round(x, int(d))


def keep(f):
    return lambda x: f(x) if not isinstance(x, float) or math.isfinite(x) else x


F1 = {"floor": keep(math.floor), "ceil": keep(math.ceil), "abs": abs, "fabs": abs, "absolute": abs, "trunc": keep(math.trunc), "float": float, "float64": float, "int": int, "sqrt": math.sqrt, "exp": math.exp,
      "isfinite": math.isfinite, "isnan": math.isnan, "sign": lambda x: (x > 0) - (x < 0), "rint": keep(round), "asarray": lambda x: x, "array": lambda x: x, "bool": bool, "negative": lambda x: -x,
      "square": lambda x: x * x, "log2": math.log2, "str": str, "copy": lambda x: x, "fix": math.trunc, "isinf": math.isinf, "len": len, "any": lambda x: any(x) if isinstance(x, tuple) else bool(x),
      "all": lambda x: all(x) if isinstance(x, tuple) else bool(x)}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "is": lambda a, b: a is b, "is not": lambda a, b: a is not b, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b}


class Rep:
    def __init__(self, leaf):
        """leaf: Term -> value or None"""
        self.leaf = leaf
        self.memo = {}

    def __call__(self, t):
        try:
            return self.ev(t)
        except (Unknown, ValueError, OverflowError, ZeroDivisionError, TypeError, KeyError):
            return None

    def atom(self, t):
        r = self(t)
        return None if r is None else bool(r)

    def ev(self, t):
        if isinstance(t, tuple):
            return tuple(self.ev(x) for x in t)
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.step(t)
        return r

    def step(self, t):
        v = self.leaf(t)
        if v is not None:
            return v
        n = num(t)
        if n is not None:
            return n
        op = t.op
        if op == "c":
            return t.a[0]
        if op == "bin" and t.a[0] in BIN:
            return BIN[t.a[0]](self.ev(t.a[1]), self.ev(t.a[2]))
        if op == "un":
            x = self.ev(t.a[1])
            return {"-": lambda: -x, "+": lambda: x, "not": lambda: not x}[t.a[0]]()
        if op == "not":
            return not self.ev(t.a[0])
        if op in ("and", "or"):
            xs = [bool(self.ev(x)) for x in t.a]
            return all(xs) if op == "and" else any(xs)
        if op == "cmp" and t.a[0] in CMP:
            return CMP[t.a[0]](self.ev(t.a[1]), self.ev(t.a[2]))
        if op == "pick":
            xs = self.ev(t.a[1])
            return min(xs) if t.a[0] == "min" else max(xs)
        if op == "list":
            return tuple(self.ev(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a))
        if op == "item":
            seq, i = self.ev(t.a[0]), self.ev(t.a[1])
            return seq[int(i) if isinstance(i, float) and i == int(i) else i]
        if op == "slice":
            return slice(*[None if x is None else int(x) for x in (self.ev(y) for y in t.a)])
        if op == "smeth" and len(t.a) >= 2 and isinstance(t.a[0], str) and t.a[0] in ("rstrip", "lstrip", "strip"):
            return getattr(self.ev(t.a[1]), t.a[0])()
        if op == "fmt":
            spec, x = t.a[0] if isinstance(t.a[0], str) else self.ev(t.a[0]), self.ev(t.a[1])
            return spec % x if spec.startswith("%") else format(x, spec)
        if op == "cat":
            return "".join(str(self.ev(x)) for x in t.a[0])
        if op == "call":
            return self.call(t)
        raise Unknown(op)

    def call(self, t):
        n = str(t.a[0]).split(".")[-1]
        args = [self.ev(v) for _, v in t.a[1]]
        if n in ("round", "around", "round_"):
            return npround(args[0], args[1] if len(args) > 1 and args[1] is not None else 0)
        if n == "log10":
            return math.log10(args[0]) if args[0] != 0 else -math.inf
        if n == "log":
            return math.log(args[0]) if args[0] != 0 else -math.inf
        if n in ("minimum", "fmin", "maximum", "fmax"):
            return min(args[:2]) if n in ("minimum", "fmin") else max(args[:2])
        if n in ("min", "max", "amin", "amax", "nanmin", "nanmax"):
            xs = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(a for a in args if not isinstance(a, tuple))
            return min(xs) if "min" in n else max(xs)
        if n in ("power", "float_power"):
            return args[0] ** args[1]
        if n in ("isclose", "allclose"):
            return math.isclose(args[0], args[1], rel_tol=1e-5, abs_tol=1e-8)
        if n in F1 and len(args) >= 1:
            return F1[n](args[0])
        raise Unknown(n)
