"""Facts about leaves used to resolve conditions (sign, finiteness, ordering)."""
from __future__ import annotations

from terms import Term, c, mk, num, subterms


class FactsMixin:
    witmap: dict = {}

    def col_fact(self, t, name):
        f = self.I.facts.get(t)
        return None if f is None else f.get(name)

    def known_truth(self, t):
        """True/False when the facts decide the atom, else None"""
        cl = getattr(self.I, "classes", None)
        if cl is not None:
            r = cl.truth(t)
            if r is not None:
                return r
        if t.op == "c":
            return bool(t.a[0])
        if t in self.I.facts and "truth" in self.I.facts[t]:
            return self.I.facts[t]["truth"]
        if t.op == "call" and t.a[0] in ("numpy.all", "numpy.any"):
            a = dict(t.a[1]).get("a")
            if isinstance(a, Term):
                r = self.elem_truth(a)
                if r is not None:
                    return r
        if t.op == "cmp" and t.a[0] == "<":
            # densities, samples and limits computed from them are finite
            n = [x.a[0] if x.op == "c" else x.op == "un" and x.a[0] == "-" and x.a[1].op == "c" and isinstance(x.a[1].a[0], float) and -x.a[1].a[0] for x in t.a[1:]]
            for i, inf in enumerate((float("-inf"), float("inf"))):
                for j in (0, 1):
                    if isinstance(n[j], float) and n[j] == inf and t.a[2 - j].op not in ("c", "col", "opt") and not any(x.op in ("loop", "root", "unk", "sym") or x.op == "call" and "log" in str(x.a[0]) for x in subterms(t.a[2 - j])):
                        return (i == 0) == (j == 0)
        if t.op in ("cmp",):
            return self.elem_truth(t)
        return None

    def elem_truth(self, t):
        """truth value shared by every element of a boolean array, if known"""
        if t.op == "not":
            r = self.elem_truth(t.a[0])
            return None if r is None else not r
        if t.op == "call" and t.a[0] in ("numpy.isfinite", "numpy.isnan", "numpy.isinf"):
            x = t.a[1][0][1] if t.a[1] else None
            fin = self.finite(x)
            if fin is True:
                return t.a[0].endswith("isfinite")
            return None
        if t.op == "cmp" and t.a[0] in ("<", "<="):
            a, b = self.interval(t.a[1]), self.interval(t.a[2])
            if a is None or b is None:
                return None
            if t.a[0] == "<":
                if a[1] < b[0]:
                    return True
                if a[0] >= b[1]:
                    return False
            else:
                if a[1] <= b[0]:
                    return True
                if a[0] > b[1]:
                    return False
            return None
        if t.op == "cmp" and t.a[0] == "==":
            a, b = self.interval(t.a[1]), self.interval(t.a[2])
            if a is not None and b is not None:
                if a[1] < b[0] or b[1] < a[0]:
                    return False
                if a == b and a[0] == a[1]:
                    return True
        return None

    def finite(self, t):
        if not isinstance(t, Term):
            return None
        f = self.I.facts.get(t)
        if f and "finite" in f:
            return f["finite"]
        if t.op == "frame":
            rs = [self.finite(x) for x in t.a[1]]
            return True if rs and all(r is True for r in rs) else None
        n = num(t)
        if n is not None:
            return abs(n) != float("inf") and n == n
        return None

    def interval(self, t):
        n = num(t)
        if n is not None:
            return (n, n)
        f = self.I.facts.get(t)
        if f and "interval" in f:
            return f["interval"]
        if t.op == "nrows":
            return (2.0, float("inf"))
        if t.op == "call" and t.a[0] in ("numpy.min", "numpy.max", "numpy.mean", "numpy.median"):
            a = dict(t.a[1]).get("a")
            if isinstance(a, Term):
                return self.interval(a)
        return None
