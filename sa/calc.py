"""Abstract domains over def-use terms: homogeneity degree (Scale), translation coefficient (Shift), row alignment (Rows)."""
from __future__ import annotations

from fractions import Fraction as Fr

from terms import Term, callarg, mk, num, subterms

TOP = "top"  # nothing known
ZERO = "zero"  # the number zero (fits every degree)
MIX = "mix"  # components behave differently
BAD = "bad"  # definitely not equivariant

STR = {"cat", "fmt", "repr", "fn", "obj", "isinst", "enum", "dict", "exc", "path", "ext", "extattr"}
INVOPS = {"nrows", "len", "shape", "size", "ndim", "opt", "sym", "rng", "rngobj", "index", "partrows"}
SAME = {"min", "max", "nanmin", "nanmax", "mean", "nanmean", "median", "sort", "unique", "ravel", "flatten", "reshape", "transpose", "flip", "flipud", "fliplr",
        "roll", "repeat", "tile", "squeeze", "atleast_1d", "atleast_2d", "expand_dims", "percentile", "quantile", "nan_to_num",
        "diag", "diagonal", "split", "array_split", "take", "compress", "float", "moveaxis", "swapaxes", "delete", "vstack", "hstack", "column_stack", "stack",
        "concatenate", "append", "insert", "tolist", "dropna", "asarray", "array"}
LINEAR0 = {"std", "ptp", "diff", "gradient"}  # scale like the data, ignore translations
INDEX = {"argmax", "argmin", "argsort", "nonzero", "flatnonzero", "argwhere", "count_nonzero", "isfinite", "isnan", "isinf", "any", "all", "bool"}
ROUND = {"floor", "ceil", "rint", "round", "trunc", "fix", "int"}
KEEP1 = ("a", "0", "x", "y", "input", "m", "train")


def short(t):
    return t.a[0].split(".")[-1] if isinstance(t.a[0], str) else str(t.a[0])


def arg1(t):
    for k in ("a", "0", "x", "input"):
        v = callarg(t, k)
        if v is not None:
            return v
    return t.a[1][0][1] if t.a[1] else None


def none(t):
    return t is None or (isinstance(t, Term) and t.op == "c" and t.a[0] is None)


def true(t):
    return isinstance(t, Term) and t.op == "c" and t.a[0] is True


class Domain:
    def __init__(self, leaf):
        self.leaf = leaf
        self.memo = {}
        self.complaints = {}
        self.syms = {}

    def roots(self, events):
        """the variable of a root search behaves like its bracket"""
        for e in events:
            if e.kind == "rootfind":
                self.syms[e.var.term.id] = self(to_term_bracket(e))
        return self

    def complain(self, t, msg):
        self.complaints.setdefault((msg, t.id), (t, msg))

    def __call__(self, t):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return self.seq(t)
            return self.const(t)
        # iterative post-order to keep the recursion shallow
        memo = self.memo
        if t.id in memo:
            return memo[t.id]
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in memo:
                stack.pop()
                continue
            todo = [x for x in subs(u) if x.id not in memo]
            if todo and len(stack) < 100000:
                stack.extend(todo)
                continue
            stack.pop()
            memo[u.id] = self.step(u)
        return memo[t.id]

    def seq(self, xs):
        return self.joinall([self(x) for x in xs])

    def joinall(self, vs):
        r = ZERO
        for v in vs:
            if v == BAD:
                return BAD
            if v == ZERO or r == v:
                continue
            if r == ZERO:
                r = v
            elif TOP in (r, v):
                r = TOP
            else:
                r = MIX
        return r


def to_term_bracket(e):
    from values import to_term

    b = e.kw.get("bracket")
    if b is not None:
        return to_term(b)
    return mk("list", tuple(to_term(x) for x in e.args[1:3]))


def subs(t):
    out = []
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


# -------------------------------------------------------------------------------------------------- degrees
class Deg:
    """degree of homogeneity: rational combination of products of symbolic exponents"""

    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v != 0}

    def __eq__(self, o):
        return isinstance(o, Deg) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __add__(self, o):
        r = dict(self.d)
        for k, v in o.d.items():
            r[k] = r.get(k, 0) + v
        return Deg(r)

    def scale(self, f):
        return Deg({k: v * f for k, v in self.d.items()})

    def times(self, term):
        return Deg({tuple(sorted(k + (term.id,))): v for k, v in self.d.items()})

    @property
    def zero(self):
        return not self.d

    def __repr__(self):
        return " + ".join(str(v) + ("" if not k else "*p") for k, v in self.d.items()) or "0"


D0, D1 = Deg({}), Deg({(): Fr(1)})


def const_value(t):
    """numeric value of a constant-valued term, if any"""
    n = num(t)
    if n is not None:
        return n
    if isinstance(t, Term):
        if t.op == "call" and short(t) in ("ones", "ones_like"):
            return 1.0
        if t.op == "call" and short(t) in ("zeros", "zeros_like"):
            return 0.0
        if t.op == "bin":
            a, b = const_value(t.a[1]), const_value(t.a[2])
            if a is not None and b is not None:
                try:
                    return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b else None}.get(t.a[0])
                except (OverflowError, TypeError):
                    return None
        if t.op in ("bcast",):
            return const_value(t.a[0])
    return None


class Scale(Domain):
    """value(c * leaf) = c ** degree * value(leaf), for every c > 0"""

    def const(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return D0
        if v == 0 or v != v or v in (float("inf"), float("-inf")):
            return ZERO
        return D0

    def join(self, a, b, t, what):
        if TOP in (a, b) or BAD in (a, b):
            return TOP
        if a == ZERO:
            return b
        if b == ZERO or a == b:
            return a
        if MIX in (a, b):
            return MIX if a != TOP else TOP
        self.complain(t, what)
        return TOP

    def inv(self, v, t, what):
        """v has to be free of units"""
        if isinstance(v, Deg) and not v.zero:
            self.complain(t, what)

    def step(self, t):
        op = t.op
        if op == "c":
            return self.const(t.a[0])
        if op == "col":
            return self.leaf(t)
        if t.id in self.syms:
            return self.syms[t.id]
        if op in INVOPS or op in STR:
            return D0
        if op == "bin":
            o, a, b = t.a[0], self(t.a[1]), self(t.a[2])
            if o in ("+", "-"):
                return self.join(a, b, t, "an absolute number is added to a quantity that scales" if D0 in (a, b) else "quantities that scale differently are added")
            if o in ("*", "@", "/", "//"):
                if a == ZERO or (b == ZERO and o != "/" and o != "//"):
                    return ZERO
                if b == ZERO:
                    return TOP
                if not (isinstance(a, Deg) and isinstance(b, Deg)):
                    return MIX if MIX in (a, b) and D0 in (a, b) else TOP
                if o == "//":
                    if a != b:
                        self.complain(t, "a quantity that scales is rounded")
                    return D0
                return a + (b if o in "*@" else b.scale(-1))
            if o == "**":
                if a == ZERO:
                    return ZERO
                if not isinstance(a, Deg):
                    return TOP
                n = const_value(t.a[2])
                if n is not None:
                    return a.scale(Fr(n).limit_denominator(1000))
                if a.zero:
                    self.inv(b, t, "an exponent scales")
                    return D0 if isinstance(b, Deg) and b.zero else TOP
                if isinstance(b, Deg) and b.zero:
                    return a.times(t.a[2])
                return TOP
            if o == "%":
                return self.join(a, b, t, "remainder of quantities that scale differently")
            return D0 if a in (D0, ZERO) and b in (D0, ZERO) else TOP
        if op == "un":
            return self(t.a[1])
        if op == "cmp":
            a, b = self(t.a[1]), self(t.a[2])
            if isinstance(a, Deg) and isinstance(b, Deg) and a != b and t.a[0] in ("<", "<=", ">", ">=", "==", "!="):
                self.complain(t, "a quantity that scales is compared with an absolute number" if D0 in (a, b) else "quantities that scale differently are compared")
            return D0
        if op in ("not", "and", "or"):
            return D0
        if op == "item":
            b = t.a[0]
            if b.op == "call":
                r = self.tuple_item(b, num(t.a[1]) if isinstance(t.a[1], Term) else t.a[1] if isinstance(t.a[1], int) else None)
                if r is not None:
                    return r
            if b.op == "list" and num(t.a[1]) is not None:
                try:
                    return self(b.a[0][int(num(t.a[1]))])
                except (IndexError, TypeError):
                    return TOP
            return self(b)
        if op == "rows" and not isinstance(t.a[0], Term):
            return self.joinall([self(x) for x in subs(t)])
        if op in ("elem", "T", "ravel", "reshape", "newaxis", "next", "sorted", "bcast", "part", "row", "rows", "idx", "index", "setof"):
            return self(t.a[0]) if isinstance(t.a[0], Term) else (self(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], Term) else TOP)
        if op in ("list", "concat", "set"):
            return self.joinall([self(x) for x in subs(t)])
        if op == "frame":
            return self.joinall([self(x) for x in subs(t)])
        if op == "pick":
            r = ZERO
            for x in subs(t):
                r = self.join(r, self(x), t, "an absolute number competes with a quantity that scales (min/max)")
            return r
        if op == "setitem":
            return self.joinall([self(t.a[0]), self(t.a[-1])])
        if op == "mutated":
            return self(t.a[-1])
        if op == "root":
            return self(t.a[-1]) if isinstance(t.a[-1], Term) else TOP
        if op == "slice":
            for x in subs(t):
                self.inv(self(x), t, "an index scales")
            return D0
        if op == "apply":
            f = t.a[0]
            q = t.a[1] if len(t.a) > 1 else None
            q = q[0] if isinstance(q, tuple) and q else q
            if isinstance(f, Term) and f.op == "call" and short(f) in ("interp1d",):
                if isinstance(q, Term):
                    self.join(self(callarg(f, "x")), self(q), t, "interpolation at points that scale differently from the nodes")
                return self(callarg(f, "y"))
            return TOP
        if op == "call":
            return self.call(t, short(t))
        return TOP

    def tuple_item(self, b, i):
        if b.op == "call" and short(b) == "yule_walker":
            return D0 if i == 0 else self(arg1(b)) if i == 1 else None
        n = short(b)
        if n == "histogram" and i in (0, 1):
            a, w, bins = self(callarg(b, "a")), callarg(b, "weights"), callarg(b, "bins")
            self.histcheck(b, a, bins, callarg(b, "range"))
            if i == 1:
                return a
            if true(callarg(b, "density")):
                return a.scale(-1) if isinstance(a, Deg) else TOP
            return D0 if none(w) else self(w)
        if n == "histogram2d" and i in (0, 1, 2):
            x, y, w, bins = self(callarg(b, "x")), self(callarg(b, "y")), callarg(b, "weights"), callarg(b, "bins")
            if isinstance(bins, Term) and bins.op == "list" and len(bins.a[0]) == 2:
                self.histcheck(b, x, bins.a[0][0], None)
                self.histcheck(b, y, bins.a[0][1], None)
            if i:
                return (x, y)[i - 1]
            if true(callarg(b, "density")):
                return (x + y).scale(-1) if isinstance(x, Deg) and isinstance(y, Deg) else TOP
            return D0 if none(w) else self(w)
        if n == "meshgrid" and i in (0, 1):
            return self(b.a[1][int(i)][1]) if len(b.a[1]) > i else TOP
        if n == "where" and callarg(b, "a") is None:
            return self(b)
        if n in ("unique", "average", "split", "array_split"):
            return self(callarg(b, "a")) if i in (0, None) or n != "unique" or not any(k.startswith("return_") for k, _ in b.a[1]) else D0
        if n in ("eigh", "eig", "query", "modf"):
            return TOP
        return None

    def histcheck(self, t, a, bins, rng):
        if isinstance(bins, Term):
            v = self(bins)
            isnum = num(bins) is not None or bins.op in ("opt",) or bins.op == "c"
            if isnum or (isinstance(v, Deg) and v.zero and isinstance(a, Deg) and not a.zero and scalarish(bins)):
                pass
            else:
                self.join(a, v, t, "bin edges do not scale with the data")
        if isinstance(rng, Term) and not none(rng):
            self.join(a, self(rng), t, "a histogram range does not scale with the data")

    def call(self, t, n):
        A = {k: v for k, v in t.a[1]}
        first = arg1(t)
        v = self(first) if isinstance(first, Term) else TOP
        if n in ("vstack", "hstack", "column_stack", "stack", "concatenate"):
            return v
        if n in ("append", "insert"):
            b = A.get("b", A.get("v"))
            return self.joinall([v, self(b)]) if b is not None else v
        if n in ("percentile", "quantile"):
            return v
        if n in SAME or n in LINEAR0 or n in ("sum", "nansum", "cumsum", "abs", "absolute"):
            return v
        if n == "average":
            return v
        if n in ("var",):
            return v.scale(2) if isinstance(v, Deg) else v
        if n == "cov":
            fw = A.get("fweights")
            if not none(fw):
                self.inv(self(fw), t, "frequency weights scale")
            m = self(callarg(t, "m"))
            return m.scale(2) if isinstance(m, Deg) else m
        if n == "corrcoef":
            return D0
        if n in ("sqrt", "cbrt"):
            return v.scale(Fr(1, 2) if n == "sqrt" else Fr(1, 3)) if isinstance(v, Deg) else v
        if n == "square":
            return v.scale(2) if isinstance(v, Deg) else v
        if n in ("inv", "pinv"):
            return v.scale(-1) if isinstance(v, Deg) else TOP
        if n == "cholesky":
            return v.scale(Fr(1, 2)) if isinstance(v, Deg) else TOP
        if n in ("exp", "expm1", "exp2", "sin", "cos", "tan", "arctan", "erf"):
            self.inv(v, t, f"{n} of a quantity that scales")
            return D0 if v in (D0, ZERO) else TOP
        if n in ("log", "log10", "log2", "log1p"):
            return D0 if v in (D0, ZERO) else TOP
        if n in ROUND:
            self.inv(v, t, "a quantity that scales is rounded to a whole number")
            return v if v == ZERO else (D0 if isinstance(v, Deg) and v.zero else TOP)
        if n in INDEX or n == "sign":
            return D0
        if n in ("where",):
            if none(A.get("a")):
                return D0
            q = A.get("cond")
            if isinstance(q, Term) and q.op == "cmp" and q.a[0] == "==" and {num(x) for x in q.a[1:]} >= {0} and any(x is A.get("b") for x in q.a[1:]):
                return self.joinall([self(A["a"]), self(A["b"])])  # zeros get a floor, as by assignment through the mask
            return self.join(self(A["a"]), self(A["b"]), t, "a quantity that scales is replaced by an absolute number (where)")
        if n == "clip":
            r = v
            for k in ("lo", "hi", "1", "2"):
                if k in A and not none(A[k]):
                    r = self.join(r, self(A[k]), t, "a quantity that scales is clipped at an absolute number")
            return r
        if n in ("maximum", "minimum", "fmax", "fmin"):
            return self.join(self(A.get("a")), self(A.get("b")), t, "an absolute number competes with a quantity that scales (min/max)") if "b" in A else TOP
        if n == "searchsorted":
            self.join(self(A["a"]), self(A["v"]), t, "a search value scales differently from the array")
            return D0
        if n == "digitize":
            self.join(self(A["x"]), self(A["bins"]), t, "bin edges do not scale with the data")
            return D0
        if n in ("linspace",):
            if "num" in A:
                self.inv(self(A["num"]), t, "a grid size depends on the units")
            return self.join(self(A["start"]), self(A["stop"]), t, "a grid has an absolute end point") if "start" in A and "stop" in A else TOP
        if n == "arange":
            r = ZERO
            for k in ("start", "stop", "step"):
                if k in A and not none(A[k]):
                    r = self.join(r, self(A[k]), t, "a grid has an absolute step or end point")
            return r
        if n in ("full", "full_like"):
            return self(A["fill"]) if "fill" in A else TOP
        if n in ("zeros", "zeros_like"):
            return ZERO
        if n in ("ones", "ones_like", "eye", "identity", "arange"):
            return D0
        if n in ("dot", "matmul", "outer", "inner", "convolve", "kron"):
            b = A.get("b", A.get("v"))
            b = self(b) if b is not None else TOP
            return v + b if isinstance(v, Deg) and isinstance(b, Deg) else (ZERO if ZERO in (v, b) else TOP)
        if n in ("interp",):
            self.join(self(A["x"]), self(A["xp"]), t, "interpolation at points that scale differently from the nodes")
            r = self(A["fp"])
            for k in ("left", "right"):
                if k in A and not none(A[k]):
                    r = self.join(r, self(A[k]), t, "an absolute value outside the interpolation range")
            return r
        if n in ("simpson", "simps", "trapz", "trapezoid", "cumulative_trapezoid", "cumtrapz"):
            y = self(A.get("y", first))
            x = A.get("x") if n != "x" else None
            dx = A.get("dx")
            xv = self(x) if x is not None and not none(x) else (self(dx) if dx is not None else D0)
            return y + xv if isinstance(y, Deg) and isinstance(xv, Deg) else (ZERO if y == ZERO else TOP)
        if n in ("gaussian_filter", "gaussian_filter1d", "uniform_filter", "uniform_filter1d", "median_filter"):
            s = A.get("sigma", A.get("size", A.get("1")))
            if s is not None:
                self.inv(self(s), t, "a smoothing width in cells scales with the units")
            return v
        if n == "histogram":
            return MIX
        if n in ("histogram2d", "meshgrid"):
            return MIX
        if n == "histogram_bin_edges":
            return v
        if n == "griddata":
            p, xi = self(A["points"]), self(A["xi"])
            m = A.get("method")
            if m is not None and m.op == "c" and m.a[0] == "nearest" and not true(A.get("rescale")) and MIX in (p, xi):
                self.complain(t, "a nearest-neighbour search mixes parameters of different units without rescaling")
            return self(A["values"])
        if n in ("cKDTree", "KDTree"):
            return self(first)
        if n in ("query", "query_ball_point"):
            return TOP
        if n in ("len", "size", "shape", "ndim", "bincount"):
            return D0
        if n in ("ppf", "cdf", "sf"):
            return D0 if all(self(x) in (D0, ZERO) for x in A.values() if isinstance(x, Term)) else TOP
        if n == "prod":
            return D0 if v == D0 else TOP
        return TOP


def scalarish(t):
    return t.op in ("pick", "c", "opt", "sym", "nrows") or (t.op == "call" and short(t) in ("int", "floor", "round", "max", "min")) or (t.op == "bin" and scalarish(t.a[1]) and scalarish(t.a[2]))


# -------------------------------------------------------------------------------------------------- translations
class Shift(Domain):
    """value(leaf + s) = value(leaf) + k * s"""

    def const(self, v):
        return Fr(0)

    def joinall(self, vs):
        r = None
        for v in vs:
            if v == BAD:
                return BAD
            if r is None or r == v:
                r = v
            elif TOP in (r, v):
                r = TOP
            else:
                r = MIX
        return Fr(0) if r is None else r

    def join(self, a, b, t, what):
        if BAD in (a, b):
            return BAD
        if TOP in (a, b) or MIX in (a, b):
            return TOP if TOP in (a, b) else MIX
        if a == b:
            return a
        self.complain(t, what)
        return BAD

    def nl(self, v, t, n):
        """non-linear function of a value"""
        if isinstance(v, Fr):
            return v if v == 0 else BAD
        return v if v == BAD else TOP

    def step(self, t):
        op = t.op
        if t.id in self.syms:
            return self.syms[t.id]
        if op == "c" or op in INVOPS or op in STR:
            return Fr(0)
        if op == "col":
            return self.leaf(t)
        if op == "bin":
            o, a, b = t.a[0], self(t.a[1]), self(t.a[2])
            if BAD in (a, b):
                return BAD
            if not (isinstance(a, Fr) and isinstance(b, Fr)):
                if MIX in (a, b) and o in "+-" and a == b == MIX:
                    return MIX if o == "+" else (Fr(0) if t.a[1] is t.a[2] else TOP)
                return TOP
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if a == 0 and b == 0:
                return Fr(0)
            if o in ("*", "/"):
                x, y = const_value(t.a[1]), const_value(t.a[2])
                if o == "*" and b == 0 and y is not None:
                    return a * Fr(y).limit_denominator(10**6)
                if o == "*" and a == 0 and x is not None:
                    return b * Fr(x).limit_denominator(10**6)
                if o == "/" and b == 0 and y:
                    return a / Fr(y).limit_denominator(10**6)
                if o == "/" and b != 0:
                    return BAD
                return TOP
            if o in ("**",):
                return TOP if const_value(t.a[2]) == 2 else BAD
            return TOP if o == "@" else BAD
        if op == "un":
            v = self(t.a[1])
            return -v if isinstance(v, Fr) else v
        if op == "cmp":
            a, b = self(t.a[1]), self(t.a[2])
            if t.a[0] in ("<", "<=", ">", ">=", "==", "!="):
                if isinstance(a, Fr) and isinstance(b, Fr) and a != b:
                    self.complain(t, "a quantity that moves with the offset is compared with one that does not")
                if BAD in (a, b):
                    self.complain(t, "a comparison depends on the offset")
            return Fr(0)
        if op in ("not", "and", "or", "slice"):
            return Fr(0)
        if op == "item":
            b = t.a[0]
            i = num(t.a[1]) if isinstance(t.a[1], Term) else (t.a[1] if isinstance(t.a[1], int) else None)
            if b.op == "call":
                n = short(b)
                if n == "histogram" and i in (0, 1):
                    a = self(callarg(b, "a"))
                    bins, rng = callarg(b, "bins"), callarg(b, "range")
                    if isinstance(bins, Term) and not (num(bins) is not None or scalarish(bins)):
                        self.join(a, self(bins), b, "bin edges do not move with the data")
                    if isinstance(rng, Term) and not none(rng):
                        self.join(a, self(rng), b, "a histogram range does not move with the data")
                    return a if i == 1 else Fr(0)
                if n == "histogram2d" and i in (0, 1, 2):
                    x, y, bins = self(callarg(b, "x")), self(callarg(b, "y")), callarg(b, "bins")
                    if isinstance(bins, Term) and bins.op == "list" and len(bins.a[0]) == 2:
                        for d, e in ((x, bins.a[0][0]), (y, bins.a[0][1])):
                            if not (num(e) is not None or scalarish(e)):
                                self.join(d, self(e), b, "bin edges do not move with the data")
                    return (Fr(0), x, y)[int(i)]
                if n == "meshgrid" and i in (0, 1):
                    return self(b.a[1][int(i)][1])
                if n == "yule_walker" and i in (0, 1):
                    dm = callarg(b, "demean")
                    return Fr(0) if dm is None or not (dm.op == "c" and dm.a[0] is False) else TOP
                if n in ("unique",):
                    return self(callarg(b, "a")) if i in (0, None) or i is None else (self(callarg(b, "a")))
            if b.op == "list" and i is not None:
                try:
                    return self(b.a[0][int(i)])
                except (IndexError, TypeError):
                    return TOP
            return self(b)
        if op == "rows" and not isinstance(t.a[0], Term):
            return self.joinall([self(x) for x in subs(t)])
        if op in ("elem", "T", "ravel", "reshape", "newaxis", "next", "sorted", "bcast", "part", "row", "rows", "idx"):
            return self(t.a[0]) if isinstance(t.a[0], Term) else (self(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], Term) else TOP)
        if op in ("list", "concat", "set", "frame"):
            return self.joinall([self(x) for x in subs(t)])
        if op == "pick":
            vs = [self(x) for x in subs(t)]
            r = vs[0]
            for v in vs[1:]:
                r = self.join(r, v, t, "a fixed number competes with a quantity that moves with the offset (min/max)")
            return r
        if op == "setitem":
            return self.joinall([self(t.a[0]), self(t.a[-1])])
        if op == "mutated":
            return self(t.a[-1])
        if op == "apply":
            f = t.a[0]
            q = t.a[1] if len(t.a) > 1 else None
            q = q[0] if isinstance(q, tuple) and q else q
            if isinstance(f, Term) and f.op == "call" and short(f) == "interp1d":
                if isinstance(q, Term):
                    r = self.join(self(callarg(f, "x")), self(q), t, "interpolation at points that move differently from the nodes")
                    if r == BAD:
                        return BAD
                return self(callarg(f, "y"))
            return TOP
        if op == "call":
            return self.call(t, short(t))
        return TOP

    def call(self, t, n):
        A = {k: v for k, v in t.a[1]}
        first = arg1(t)
        v = self(first) if isinstance(first, Term) else TOP
        if n in ("append", "insert"):
            b = A.get("b", A.get("v"))
            return self.joinall([v, self(b)]) if b is not None else v
        if n in SAME or n == "average":
            if n == "average" and "weights" in A and not none(A["weights"]):
                w = self(A["weights"])
                if isinstance(w, Fr) and w != 0:
                    return BAD
            return v
        if n in ("std", "ptp", "diff", "gradient", "var", "cov", "corrcoef"):
            if n == "cov":
                v = self(callarg(t, "m"))
            return Fr(0) if isinstance(v, Fr) or v == MIX else v
        if n in ("sum", "nansum", "cumsum"):
            return v if v in (Fr(0), BAD) else TOP
        if n in INDEX:
            return Fr(0)
        if n in ("zeros", "ones", "zeros_like", "ones_like", "eye", "len", "bincount"):
            return Fr(0)
        if n == "where":
            if none(A.get("a")):
                return Fr(0)
            return self.join(self(A["a"]), self(A["b"]), t, "values that move with the offset are mixed with fixed ones (where)")
        if n == "clip":
            r = v
            for k in ("lo", "hi", "1", "2"):
                if k in A and not none(A[k]) and num(A[k]) not in (float("inf"), float("-inf")):
                    r = self.join(r, self(A[k]), t, "a quantity that moves with the offset is clipped at a fixed number")
            return r
        if n in ("maximum", "minimum", "fmax", "fmin") and "b" in A:
            return self.join(self(A["a"]), self(A["b"]), t, "a fixed number competes with a quantity that moves with the offset (min/max)")
        if n == "searchsorted":
            self.join(self(A["a"]), self(A["v"]), t, "a search value moves differently from the array")
            return Fr(0)
        if n == "digitize":
            self.join(self(A["x"]), self(A["bins"]), t, "bin edges do not move with the data")
            return Fr(0)
        if n == "linspace":
            if "num" in A and self(A["num"]) not in (Fr(0), TOP):
                self.complain(t, "a grid size depends on the offset")
            return self.join(self(A["start"]), self(A["stop"]), t, "a grid has a fixed end point") if "start" in A and "stop" in A else TOP
        if n == "arange":
            a = [self(A[k]) for k in ("start", "stop") if k in A and not none(A[k])]
            return a[0] if a and all(x == a[0] for x in a) else TOP
        if n in ("full", "full_like"):
            return self(A["fill"]) if "fill" in A else TOP
        if n in ("dot", "matmul", "outer", "inner", "convolve"):
            b = A.get("b", A.get("v"))
            b = self(b) if b is not None else TOP
            if BAD in (v, b):
                return BAD
            return Fr(0) if v == 0 and b == 0 else TOP
        if n == "interp":
            if self.join(self(A["x"]), self(A["xp"]), t, "interpolation at points that move differently from the nodes") == BAD:
                return BAD
            r = self(A["fp"])
            for k in ("left", "right"):
                if k in A and not none(A[k]):
                    r = self.join(r, self(A[k]), t, "a fixed value outside the interpolation range")
            return r
        if n in ("simpson", "simps", "trapz", "trapezoid", "cumulative_trapezoid", "cumtrapz"):
            y = self(A.get("y", first))
            return y if y in (Fr(0), BAD) else TOP
        if n in ("gaussian_filter", "gaussian_filter1d", "griddata"):
            return self(A["values"]) if n == "griddata" and "values" in A else v
        if n in ("histogram_bin_edges",):
            return v
        if n in ROUND:
            return self.nl(v, t, n)
        if n in ("histogram", "histogram2d", "meshgrid"):
            return MIX
        if n in ("sqrt", "cbrt", "abs", "absolute", "exp", "log", "log10", "log2", "log1p", "expm1", "sign", "inv", "cholesky", "sin", "cos", "tan", "square"):
            if n == "square" and isinstance(v, Fr) and v != 0:
                return TOP
            return self.nl(v, t, n)
        if all(self(x) == 0 for x in A.values() if isinstance(x, Term)):
            return Fr(0)
        return TOP


# -------------------------------------------------------------------------------------------------- rows
class Rows(Domain):
    """which rows of which chain an array runs over: (label, selections) or None"""

    def const(self, v):
        return None

    def seq(self, xs):
        return None

    def merge(self, vs):
        vs = [v for v in vs if v is not None]
        if not vs:
            return None
        if all(v == vs[0] for v in vs):
            return vs[0]
        return TOP

    def step(self, t):
        op = t.op
        if op == "col":
            return (t.a[0], ())
        if op == "bin":
            return self.merge([self(t.a[1]), self(t.a[2])])
        if op == "cmp":
            return self.merge([self(t.a[1]), self(t.a[2])])
        if op == "un":
            return self(t.a[1])
        if op == "not":
            return self(t.a[0])
        if op == "item":
            v = self(t.a[0])
            if v is None or v == TOP:
                return v
            k = t.a[1]
            if isinstance(k, Term) and k.op == "list" and k.a and len(k.a[0]) == 2 and k.a[0][0].op == "slice":
                return v
            if isinstance(k, Term) and (num(k) is not None):
                return None
            return (v[0], v[1] + (k,))
        if op in ("part",):
            v = self(t.a[0]) if isinstance(t.a[0], Term) else TOP
            return v if v in (None, TOP) else (v[0], v[1] + ("part",) + tuple(t.a[1:]))
        if op in ("T", "ravel", "reshape", "bcast", "newaxis"):
            return self(t.a[0]) if isinstance(t.a[0], Term) else TOP
        if op == "frame":
            return self.merge([self(x) for x in subs(t)])
        if op in ("list", "rows"):
            return self.merge([self(x) for x in subs(t)])
        if op == "call":
            n = short(t)
            f = arg1(t)
            if n in ("sqrt", "exp", "log", "log10", "abs", "square", "float", "asarray", "array", "isfinite", "vstack", "column_stack", "stack", "nan_to_num", "round", "floor", "cumsum", "atleast_2d", "atleast_1d", "transpose", "ravel", "negative", "power"):
                return self(f) if isinstance(f, Term) else TOP
            if n in ("dot", "matmul", "einsum") and len(t.a[1]) == 2:
                v = self(t.a[1][0][1]) if isinstance(t.a[1][0][1], Term) else TOP
                return v if isinstance(v, tuple) and self(t.a[1][1][1]) is None else None
            if n in ("where", "clip", "maximum", "minimum"):
                return self.merge([self(x) for _, x in t.a[1] if isinstance(x, Term)])
            if n in ("sort", "flip", "roll", "unique"):
                v = self(f) if isinstance(f, Term) else TOP
                return v if v in (None, TOP) else (v[0], v[1] + ((n, f.id),)) if n == "sort" else ((v[0], v[1] + (n,)))
            if n in ("argsort", "argmax"):
                return TOP
            return TOP if n in ("concatenate", "hstack", "append", "take", "choice", "compress", "repeat", "tile", "delete", "interp", "convolve") else None
        if op in ("mutated", "setitem", "unk", "elem", "row", "apply", "sorted", "concat"):
            return TOP
        return None
