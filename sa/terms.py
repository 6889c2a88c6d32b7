"""Value-flow terms: hash-consed nodes of the def-use graph built by the abstract interpreter.

A term says which operation produced a value from which inputs. Nothing is ever computed
on data: leaves are columns of a chain, options, or opaque results of libraries.
"""
from __future__ import annotations

import math

_table: dict = {}


class Term:
    __slots__ = ("op", "a", "id", "_dep", "src")

    def __init__(self, op, a, i):
        self.op = op
        self.a = a
        self.id = i
        self._dep = None

    def __repr__(self):
        return show(self)


SRC = None  # the interpreter that creates terms (for source positions)


def mk(op, *a) -> Term:
    key = (op,) + tuple((type(x).__name__, x) if isinstance(x, (bool, int, float)) else x for x in a)
    try:
        t = _table.get(key)
    except TypeError:
        key = (op, repr(a))
        t = _table.get(key)
    if t is None:
        t = Term(op, a, len(_table))
        t.src = SRC.where() if SRC is not None else None
        _table[key] = t
    return t


def reset():
    _table.clear()


def c(v) -> Term:
    return mk("c", v)


def subterms(t: Term):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)


def leaves(t: Term) -> frozenset:
    """All leaf terms (columns, options, symbols) a term depends on."""
    if t._dep is not None:
        return t._dep
    # iterative post-order to survive deep graphs
    stack = [t]
    while stack:
        x = stack[-1]
        if x._dep is not None:
            stack.pop()
            continue
        kids = []
        for y in _flat(x.a):
            if y._dep is None:
                kids.append(y)
        if kids:
            stack.extend(kids)
            continue
        if x.op in LEAF:
            x._dep = frozenset([x])
        else:
            s = frozenset()
            for y in _flat(x.a):
                s |= y._dep
            x._dep = s
        stack.pop()
    return t._dep


def _flat(a):
    for y in a:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, tuple):
            yield from _flat(y)


LEAF = {"col", "opt", "sym", "ext", "unk", "rng", "nrows"}


def show(t, depth=5) -> str:
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "c":
        return repr(t.a[0])
    if t.op == "col":
        return f"{t.a[0]}[{t.a[1]!r}]"
    if t.op == "opt":
        return f"{t.a[0]}.{t.a[1]}"
    if t.op == "sym":
        return f"<{t.a[0]}>"
    if depth <= 0:
        return "…"
    if t.op == "bin":
        return f"({show(t.a[1], depth - 1)} {t.a[0]} {show(t.a[2], depth - 1)})"
    if t.op == "call":
        return f"{t.a[0].split('.')[-1]}(" + ", ".join(f"{k}={show(v, depth - 1)}" for k, v in t.a[1]) + ")"
    return t.op + "(" + ", ".join(show(x, depth - 1) for x in t.a) + ")"


def callarg(t: Term, name, default=None):
    for k, v in t.a[1]:
        if k == name:
            return v
    return default


def isconst(t):
    return isinstance(t, Term) and t.op == "c"


def num(t):
    """numeric constant of a term or None"""
    if isinstance(t, Term) and t.op == "c" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return float(t.a[0])
    if isinstance(t, Term) and t.op == "un" and t.a[0] == "-":
        n = num(t.a[1])
        return None if n is None else -n
    return None


def finite(x):
    return x is not None and math.isfinite(x)


def src_site(t):
    """source position where a term was first built: (module, function, line, col)"""
    s = getattr(t, "src", None)
    if s is None or s[0] is None:
        return None
    m, n, f = s
    return (m.name, f.qual if f is not None else m.name, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
