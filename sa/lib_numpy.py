from __future__ import annotations

import math

from lib_builtin import conc
from terms import Term, num, mk, c, Term
from values import *  # noqa: F403
from values import NOWIT, SV, Ext

SIG = {
    "sum": "a axis dtype out keepdims", "mean": "a axis dtype out keepdims", "std": "a axis dtype out ddof",
    "var": "a axis dtype out ddof", "min": "a axis", "max": "a axis", "median": "a axis", "average": "a axis weights returned",
    "any": "a axis", "all": "a axis", "prod": "a axis", "ptp": "a axis", "argmax": "a axis", "argmin": "a axis",
    "nanmax": "a axis", "nanmin": "a axis", "nanmean": "a axis", "nansum": "a axis",
    "percentile": "a q axis", "quantile": "a q axis", "count_nonzero": "a axis",
    "cumsum": "a axis", "cumprod": "a axis", "diff": "a n axis", "sort": "a axis", "argsort": "a axis kind", "unique": "a",
    "concatenate": "a axis", "hstack": "a", "vstack": "a", "column_stack": "a", "stack": "a axis", "row_stack": "a",
    "atleast_1d": "a", "atleast_2d": "a", "ravel": "a order", "reshape": "a shape", "transpose": "a axes", "flip": "a axis",
    "split": "a n axis", "array_split": "a n axis", "linspace": "start stop num endpoint", "logspace": "start stop num endpoint base",
    "geomspace": "start stop num", "arange": "start stop step", "zeros": "shape dtype", "ones": "shape dtype",
    "full": "shape fill dtype", "empty": "shape dtype", "zeros_like": "a dtype", "ones_like": "a dtype", "full_like": "a fill",
    "eye": "n", "identity": "n", "outer": "a b", "dot": "a b", "matmul": "a b", "inner": "a b", "diag": "a k", "diagonal": "a",
    "meshgrid": "a b", "cov": "m y rowvar bias ddof fweights aweights", "corrcoef": "m y rowvar",
    "histogram": "a bins range density weights", "histogram2d": "x y bins range density weights",
    "histogram_bin_edges": "a bins range weights",
    "interp": "x xp fp left right", "searchsorted": "a v side", "digitize": "x bins", "bincount": "a weights",
    "convolve": "a v mode", "gradient": "a b", "trapz": "y x dx", "trapezoid": "y x dx", "isin": "a b", "nonzero": "a", "flatnonzero": "a",
    "argwhere": "a", "tile": "a n", "repeat": "a n", "append": "a b axis", "where": "cond a b", "clip": "a lo hi",
    "power": "a b", "maximum": "a b", "minimum": "a b", "arctan2": "a b", "round": "a decimals", "around": "a decimals",
    "isclose": "a b rtol atol", "allclose": "a b rtol atol", "array_equal": "a b", "squeeze": "a", "expand_dims": "a axis",
    "take": "a idx axis", "compress": "cond a", "searchsorted2": "", "fliplr": "a", "flipud": "a", "roll": "a n",
    "einsum": "spec a b", "polyfit": "x y deg", "hypot": "a b", "float_power": "a b", "copyto": "dst src where",
    "moveaxis": "a src dst", "swapaxes": "a i j", "insert": "a i v", "delete": "a i", "nan_to_num": "a",
}
SIG = {k: v.split() for k, v in SIG.items()}
ELEM1 = {"sqrt", "log", "log10", "log2", "exp", "abs", "floor", "ceil", "sign", "isfinite", "isnan", "isinf", "rint",
         "log1p", "expm1", "nan_to_num", "sin", "cos", "tan", "arctan", "trunc", "fix", "exp2", "cbrt", "erf", "logical_not", "radians", "degrees", "deg2rad", "rad2deg"}
FOLD1 = {"sqrt": math.sqrt, "log": math.log, "log10": math.log10, "log2": math.log2, "exp": math.exp, "abs": abs,
         "floor": math.floor, "ceil": math.ceil, "log1p": math.log1p, "rint": round, "isfinite": math.isfinite,
         "isnan": math.isnan, "isinf": math.isinf, "sin": math.sin, "cos": math.cos, "arctan": math.atan, "trunc": math.trunc,
         "fabs": abs, "sign": lambda x: (x > 0) - (x < 0), "square": lambda x: x * x, "exp2": lambda x: 2.0 ** x, "erf": math.erf,
         "degrees": math.degrees, "radians": math.radians}
CANON = {"amin": "min", "amax": "max", "absolute": "abs", "fabs": "abs", "round_": "round", "around": "round",
         "trapezoid": "trapz", "row_stack": "vstack", "float_power": "power", "pow": "power", "arctan2": "arctan2", "atan2": "arctan2", "atan": "arctan",
         "fsum": "sum", "bitwise_and": "logical_and", "bitwise_or": "logical_or", "invert": "logical_not"}
REDUCE = {"sum", "mean", "std", "var", "min", "max", "median", "average", "any", "all", "prod", "ptp", "argmax", "argmin",
          "nanmax", "nanmin", "nanmean", "nansum", "count_nonzero", "trapz", "inner", "allclose", "array_equal"}
ARITH2 = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**", "floor_divide": "//",
          "mod": "%", "remainder": "%", "matmul": "@"}
CMP2 = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}
IDENT_FRESH = {"array", "copy", "asfarray"}
IDENT_VIEW = {"asarray", "asanyarray", "ascontiguousarray", "asarray_chkfinite"}


class NumpyMixin:
    # ------------------------------------------------------------------ helpers
    def conc_len(self, v):
        if isinstance(v, SV):
            n = v.length
            if isinstance(n, int) and not isinstance(n, bool) and n <= 64:
                return n
            if isinstance(n, SV) and isinstance(n.wit, int) and n.wit <= 12 and n.term.op != "nrows":
                return n.wit
            if v.term.op == "list" and len(v.term.a[0]) <= 64:
                return len(v.term.a[0])
            if v.nd != 0 and v.term.op in ("item", "elem") and isinstance(v.term.a[0], Term) and (not isinstance(v.term.a[1], Term) or num(v.term.a[1]) is not None):
                return self.sqdim(v.term.a[0])
            if v.nd == 2:
                return self.sqdim(v.term)
        return None

    def sqdim(self, t, depth=6):
        """dimension of a square matrix term built from a covariance of known columns"""
        if depth < 0 or not isinstance(t, Term):
            return None
        if t.op == "call" and t.a[0].split(".")[-1] in ("cov", "corrcoef"):
            m = dict(t.a[1]).get("m", dict(t.a[1]).get("a"))
            for _ in range(4):
                if isinstance(m, Term) and m.op in ("T", "un", "values", "copy"):
                    m = next((x for x in m.a if isinstance(x, Term)), None)
                elif isinstance(m, Term) and m.op == "call" and m.a[0].split(".")[-1] in ("transpose", "asarray", "array", "to_numpy", "copy", "ascontiguousarray"):
                    m = m.a[1][0][1]
            return len(m.a[0]) if isinstance(m, Term) and m.op == "frame" else None
        if t.op == "call" and t.a[0].split(".")[-1] in ("atleast_2d", "sqrt", "abs", "asarray", "array", "clip", "round", "nan_to_num", "square"):
            return self.sqdim(t.a[1][0][1], depth - 1)
        if t.op == "bin":
            for x in t.a[1:3]:
                n = self.sqdim(x, depth - 1)
                if n is not None:
                    return n
        if t.op in ("T", "un", "mutated", "setitem"):
            for x in t.a:
                if isinstance(x, Term):
                    return self.sqdim(x, depth - 1)
        return None

    def elem_kind(self, v):
        if v.kind in ("array", "series"):
            if v.nd in (1, None) and v.nd == 1:
                return "scalar"
            if v.nd and v.nd > 1:
                return "array"
        return None

    def apply_kind(self, f, args):
        if args:
            x = args[0]
            if isinstance(x, SV):
                return x.kind if x.kind in ("array", "scalar") else "array"
            if isinstance(x, (VList, tuple)):
                return "array"
            if isinstance(x, (int, float)):
                return "scalar"
        return None

    def lenof(self, v):
        if isinstance(v, SV):
            return v.length
        if isinstance(v, VList):
            return len(v.items)
        if isinstance(v, tuple):
            return len(v)
        return None

    def ndof(self, v):
        if isinstance(v, SV):
            if v.nd is not None:
                return v.nd
            if v.kind in ("scalar", "bool"):
                return 0
            return None
        if isinstance(v, (int, float, bool)):
            return 0
        if isinstance(v, (VList, tuple)):
            items = v.items if isinstance(v, VList) else v
            sub = [self.ndof(x) for x in items]
            if sub and all(s is not None for s in sub):
                return 1 + max(sub)
            return None if sub else 1
        if isinstance(v, VFrame):
            return 2
        return None

    def isarr(self, v):
        return (isinstance(v, SV) and v.kind in ("array", "series")) or (isinstance(v, VList)) or isinstance(v, VFrame)

    def bcast(self, *vs):
        """kind, length, nd of an elementwise result"""
        kind, length, nd = "scalar", None, 0
        known = True
        for v in vs:
            if isinstance(v, SV):
                if v.kind == "series":
                    kind = "series"
                elif v.kind == "array" and kind != "series":
                    kind = "array"
                elif v.kind is None and kind == "scalar":
                    kind = None
            elif isinstance(v, (VList, tuple)) and kind in ("scalar", None):
                kind = "array"
            n = self.lenof(v)
            if length is None:
                length = n
            d = self.ndof(v)
            if d is None:
                known = False
            else:
                nd = max(nd, d)
        return kind, length, (nd if known or nd >= 1 else None)

    def arith(self, op, a, b):
        kind, length, nd = self.bcast(a, b)
        for x in (a, b):
            if isinstance(x, SV) and x.kind == "str" and op != "*":
                self.I.throw(TypeError, f"unsupported operand {op} for str")
            if isinstance(x, SV) and x.kind in ("callable",):
                self.I.throw(TypeError, f"unsupported operand {op}")
        w = NOWIT
        wa, wb = self.wit(a), self.wit(b)
        if wa is not NOWIT and wb is not NOWIT and not (wa is None or wb is None):
            try:
                from interp import PYBIN

                w = PYBIN[op](wa, wb)
                if isinstance(w, complex):
                    w = NOWIT
            except (TypeError, ValueError, ZeroDivisionError, OverflowError):
                w = NOWIT
        if op == "@":
            return SV(mk("call", "numpy.dot", (("a", to_term(a)), ("b", to_term(b)))), "array")
        r = SV(mk("bin", op, to_term(a), to_term(b)), kind, wit=w, length=length, nd=nd)
        return self.align(r, a, b) if kind == "series" else r

    def align(self, r, *xs):
        """row labels of the result of an operation between series; rows meet by label"""
        labs = {x.lab for x in xs if isinstance(x, SV) and x.kind == "series"}
        if len(labs) == 1:
            r.lab = labs.pop()
        elif "range" in labs and any(x not in (None, "range") for x in labs):
            r = SV(mk("aligned", r.term, "+".join(sorted(x for x in labs if x))), r.kind, length=r.length, nd=r.nd)
        return r

    def cmp(self, op, a, b):
        kind, length, nd = self.bcast(a, b)
        if kind in ("scalar", None):
            kind = "bool"
            length = None
        else:
            kind = "array"
        ta, tb = to_term(a), to_term(b)
        w = NOWIT
        wa, wb = self.wit(a), self.wit(b)
        if kind == "bool" and wa is not NOWIT and wb is not NOWIT:
            try:
                from interp import PYCMP

                w = PYCMP[op](wa, wb)
            except TypeError:
                w = False if op == "==" else NOWIT
        neg = False
        if op == "!=":
            op, neg = "==", True
        if op == ">":
            op, ta, tb = "<", tb, ta
        elif op == ">=":
            op, ta, tb = "<=", tb, ta
        if op == "==" and ta is tb and kind == "bool":
            return not neg
        if op == "==" and tb.id < ta.id:
            ta, tb = tb, ta
        t = mk("cmp", op, ta, tb)
        if neg:
            t = mk("not", t)
            if w is not NOWIT:
                w = not w
        return SV(t, kind, wit=w, length=length, nd=nd if kind == "array" else 0)

    # ------------------------------------------------------------------ numpy
    def np(self, name, *args, **kw):
        return self.call_numpy("numpy." + name, list(args), kw)

    def write_into(self, o, term, how):
        """the array o takes a new value in place; every alias sees it"""
        self.I.mutate(o, how)
        if isinstance(o, VList):
            return
        o.term = term
        o.wit = NOWIT
        b, n = o.base, 0
        while isinstance(b, SV) and n < 10:
            b.term = mk("mutated", b.term, term)
            b, n = b.base, n + 1

    def call_numpy(self, path, args, kw):
        I = self.I
        sub = path.split(".")[1:]
        name = sub[-1]
        out = kw.get("out")
        if out is not None and sub[0] not in ("random", "linalg"):
            r = self.call_numpy(path, args, {k: v for k, v in kw.items() if k != "out"})
            for x in out if isinstance(out, tuple) else (out,):
                if isinstance(x, (SV, VList)):
                    self.write_into(x, to_term(r), f"{name}(out=)")
            return out[0] if isinstance(out, tuple) and len(out) == 1 else out
        if name in ("copyto", "put", "place", "putmask", "fill_diagonal") and len(sub) == 1 and args and isinstance(args[0], (SV, VList)):
            x = args[0]
            if isinstance(x, SV) and name == "copyto" and len(args) == 2 and not kw:
                t = to_term(args[1])
            else:
                t = mk("call", "numpy." + name, tuple((str(i), to_term(z)) for i, z in enumerate(args)))
            self.write_into(x, t, f"{name}()")
            return None
        if sub[0] == "random":
            return self.np_random(path, name, args, kw)
        if sub[0] == "linalg":
            t = self.callterm("numpy.linalg." + name, ["a", "b"], args, kw)
            k = None if name in ("svd", "eigh", "eig") else ("scalar" if name in ("det", "norm", "cond") else "array")
            return SV(t, k, nd=2 if name in ("inv", "cholesky", "pinv") else None)
        name = CANON.get(name, name)
        args = [self.force(x) if isinstance(x, ExtMeth) else x for x in args]
        if path.startswith("math.") and any(isinstance(x, SV) and x.kind in ("array", "series") for x in args):
            I.throw(TypeError, "only length-1 arrays can be converted to Python scalars")
        kw = {k: self.force(v) if isinstance(v, ExtMeth) else v for k, v in kw.items() if k not in ("dtype", "out", "keepdims") or k == "keepdims"}
        for x in args[:1]:
            if x is None and name not in ("full", "arange", "array", "asarray"):
                I.throw(TypeError, f"unsupported operand type NoneType for {name}")
        args = [VList(list(I.iterate(x))) if isinstance(x, VIter) else x for x in args]
        if len(args) and isinstance(args[0], range):
            args[0] = VList(list(args[0]))
        a = args[0] if args else kw.get("a", kw.get("x"))
        if name == "take" and len(args) == 2 and not kw and isinstance(a, SV) and a.nd == 1:
            return I.getitem(a, args[1])
        # folding on plain numbers
        if name in FOLD1 and isinstance(a, (int, float)) and len(args) == 1:
            try:
                r = FOLD1[name](a)
            except ValueError:
                r = float("-inf") if name.startswith("log") and a == 0 else float("nan")
                if path.startswith("math."):
                    I.throw(ValueError, "math domain error")
            except OverflowError:
                r = float("inf")
            if isinstance(r, bool):
                return r
            if path.startswith("math.") and name in ("floor", "ceil", "trunc"):
                return int(r)
            return NPF(r)
        if name in ARITH2 and len(args) == 2:
            if all(isinstance(x, (int, float)) for x in args):
                return I.binop(ARITH2[name], NPF(args[0]), NPF(args[1]))
            if any(x is None for x in args):
                I.throw(TypeError, "NoneType")
            if isinstance(args[0], VFrame) or isinstance(args[1], VFrame):
                return self.frame_binop(ARITH2[name], args[0], args[1])
            return self.arith(ARITH2[name], args[0], args[1])
        if name in CMP2 and len(args) == 2:
            return I.compare(CMP2[name], args[0], args[1])
        if name == "square":
            return I.binop("**", a, 2) if not isinstance(a, VList) else self.arith("**", a, 2)
        if name == "negative":
            return self.arith("*", a, -1)
        if name == "logical_not":
            if isinstance(a, SV):
                return SV(a.term.a[0] if a.term.op == "not" else mk("not", a.term), a.kind, length=a.length, nd=a.nd)
            return not I.truth(a)
        if name in ("logical_and", "logical_or"):
            return self.arith("&" if name.endswith("and") else "|", args[0], args[1])
        if name in ("float64", "float32", "float_", "double"):
            r = self.b_float([a], {})
            return NPF(r) if isinstance(r, float) else r
        if name in ("int64", "int32", "int_", "intp"):
            return self.b_int([a], {})
        if name in ("str_",):
            return self.b_str([a], {})
        if name in ("bool_",):
            return self.b_bool([a], {})
        if name in IDENT_VIEW:
            return self.as_array(a, view=True)
        if name in IDENT_FRESH:
            return self.as_array(a, view=False)
        if name in ("round",) and isinstance(a, (int, float)):
            return self.b_round([a, *args[1:]], kw)
        if name in ("maximum", "minimum") and len(args) == 2 and not any(self.isarr(x) for x in args):
            return self._minmax(list(args), {}, name[:3])
        if name in ("min", "max", "sum", "mean", "any", "all", "prod", "median") and isinstance(a, (VList, tuple)) and len(args) == 1 and not kw:
            items = a.items if isinstance(a, VList) else list(a)
            if not items and name in ("min", "max"):
                I.throw(ValueError, "zero-size array to reduction operation")
            if items and all(isinstance(x, (int, float)) for x in items):
                return {"min": min, "max": max, "sum": sum, "any": any, "all": all,
                        "mean": lambda x: sum(x) / len(x), "prod": math.prod,
                        "median": lambda x: sorted(x)[len(x) // 2]}[name](items)
            if name in ("min", "max") and items and all(self.ndof(x) == 0 or (isinstance(x, SV) and x.nd is None) for x in items):
                return self._minmax([a], {}, name)
            if name in ("any", "all") and items:
                return (self.b_any if name == "any" else self.b_all)([a], {})
        if name in ("any", "all") and isinstance(a, (bool, int)):
            return bool(a)
        if isinstance(a, SV) and a.kind in ("scalar", "bool") and name in ("any", "all", "min", "max", "sum", "mean", "median") and len(args) == 1 and not kw:
            return a
        if isinstance(a, (int, float)) and name in ("min", "max", "sum", "mean", "ravel", "squeeze"):
            return a
        return self.np_generic(name, args, kw)

    def as_array(self, a, view):
        I = self.I
        if isinstance(a, SV):
            if view and a.kind == "array":
                return a
            return SV(a.term, a.kind if a.kind in ("scalar",) else "array", a.wit, base=a if view else None, length=a.length, nd=a.nd)
        if isinstance(a, VFrame):
            return self.frame_numpy(a, view)
        if isinstance(a, VRow):
            return SV(mk("list", tuple(to_term(x) for x in a.cols.values())), "array", length=len(a.cols), nd=1)
        if isinstance(a, VGrid):
            return a
        if isinstance(a, VIter):
            a = VList(list(I.iterate(a)))
        if isinstance(a, (VList, tuple)):
            if isinstance(a, VList) and a.kind in ("index", "axrow"):
                return VList(a.items, kind="index" if a.kind == "index" else a.kind)
            items = a.items if isinstance(a, VList) else list(a)
            if items and all(isinstance(x, str) for x in items):
                return VList(items, kind="index")
            if items and all(isinstance(x, (ExtObj,)) for x in items):
                return VList(items, kind="axrow")
            nd = self.ndof(VList(items))
            flat = [to_term(self.as_array(x, False)) if isinstance(x, (VList, tuple)) else to_term(x) for x in items]
            return SV(mk("list", tuple(flat)), "array", length=len(items), nd=nd)
        if isinstance(a, (int, float)):
            return SV(c(a), "scalar", wit=a, nd=0)
        if a is None:
            return SV(c(None), "array", nd=0)
        if isinstance(a, VDict):
            return SV(to_term(a), "array", nd=0)
        return SV(to_term(a), "array")

    def np_generic(self, name, args, kw):
        I = self.I
        names = SIG.get(name)
        if names is None:
            names = ["a"] if name in ELEM1 or name not in SIG and len(args) == 1 else [str(i) for i in range(len(args))]
        al = {"x": "a", "arr": "a", "arrays": "a", "tup": "a", "m": "a", "v": "v", "obj": "a", "ary": "a", "indices_or_sections": "n", "exponent": "b", "a_min": "lo", "a_max": "hi", "min": "lo", "max": "hi", "fill_value": "fill", "N": "n", "reps": "n", "repeats": "n"}
        b = {}
        for n, v in zip(names, args):
            b[n] = v
        for i in range(len(names), len(args)):
            b[f"#{i}"] = args[i]
        for k, v in kw.items():
            kk = k if k in names else al.get(k, k)
            b[kk] = v
        if b.get("axis", 0) is None:
            b.pop("axis")
        if name == "arange":
            if "stop" not in b or b["stop"] is None:
                b = {"start": 0, "stop": b.get("start"), **({"step": b["step"]} if "step" in b else {})}
            if all(isinstance(b[x], int) for x in b):
                r = range(b["start"], b["stop"], b.get("step", 1))
                if len(r) <= 64:
                    return SV(mk("list", tuple(c(x) for x in r)), "array", length=len(r), nd=1)
        term = mk("call", "numpy." + name, tuple(sorted((k, to_term(v)) for k, v in b.items())))
        a = b.get("a")
        if isinstance(a, (VFrame,)) and name in ("mean", "sum", "std", "var", "min", "max", "median", "average", "ptp") and "axis" in b:
            ax = b["axis"]
            if ax == 0 or (isinstance(ax, str) and ax == "index"):
                cols = []
                for n2, col in a.cols.items():
                    bb = dict(b)
                    bb.pop("axis")
                    bb["a"] = col
                    cols.append(to_term(self.np_generic(name, [], {k: v for k, v in bb.items()})))
                return SV(mk("list", tuple(cols)), "array", length=len(cols), nd=1)
        kind, length, nd = "array", None, None
        if name in REDUCE:
            ax = b.get("axis")
            if ax is None and not (name == "average" and "returned" in b):
                kind, nd = "scalar", 0
                if name in ("any", "all"):
                    kind = "bool"
            else:
                nd = self.ndof(a)
                nd = nd - 1 if nd else None
                if nd == 0:
                    kind = "scalar"
                t = to_term(a) if a is not None else None
                # reductions of a list of rows over axis 0
                if isinstance(a, SV) and isinstance(ax, int):
                    pass
            if name in ("percentile", "quantile"):
                pass
        elif name in ELEM1 or name in ("round", "clip", "nan_to_num", "isclose"):
            kind, length, nd = self.bcast(a) if not isinstance(a, VFrame) else ("array", None, 2)
            if isinstance(a, VFrame):
                return VFrame({n2: self.np_generic(name, [], {**b, "a": col}) for n2, col in a.cols.items()}, a.nrows, a.index)
            if name in ("isfinite", "isnan", "isinf", "isclose") and kind in ("scalar", None):
                kind = "bool"
            if kind == "series":
                kind = "series"
        elif name in ("maximum", "minimum", "arctan2", "where", "hypot"):
            if name == "where" and "b" not in b:
                r = SV(term, "array", length=None)
                nd0 = self.ndof(b["cond"])
                if nd0 == 1:
                    return (SV(mk("item", term, c(0)), "array", nd=1),)
                return SV(term, None)
            kind, length, nd = self.bcast(*[x for x in b.values()])
        elif name in ("cumsum", "cumprod", "sort", "argsort", "flip", "flipud", "fliplr", "zeros_like", "ones_like", "full_like", "gradient", "convolve", "roll"):
            length, nd = self.lenof(a), self.ndof(a) or 1
            if name == "flip" and nd == 1 and isinstance(a, SV):
                return self.sv_getitem(a, slice(None, None, -1))
        elif name == "diff":
            n = self.lenof(a)
            length = n - 1 if isinstance(n, int) else None
            nd = self.ndof(a)
        elif name in ("linspace", "logspace", "geomspace"):
            length = b.get("num", 50)
            nd = 1
        elif name in ("zeros", "ones", "full", "empty"):
            s = b.get("shape")
            if isinstance(s, (int, SV)):
                length, nd = s, 1
            elif isinstance(s, tuple):
                length, nd = (s[0] if s else None), len(s)
        elif name in ("concatenate", "hstack", "append"):
            parts = I.iterate(a) if name != "append" else [a, b.get("b")]
            parts = list(parts) if isinstance(a, (VList, tuple)) or name == "append" else []
            ns = [self.lenof(p) for p in parts]
            length = sum(ns) if ns and all(isinstance(x, int) for x in ns) else None
            nd = 1
            term = mk("call", "numpy.concatenate", (("a", mk("list", tuple(to_term(self.as_array(p, True)) if isinstance(p, (VList, tuple)) else to_term(p) for p in parts))),)) if parts else term
        elif name in ("vstack", "stack"):
            nd = 2
            parts = list(I.iterate(a)) if isinstance(a, (VList, tuple)) else []
            length = len(parts) or None
            term = mk("rows", tuple(to_term(p) for p in parts)) if parts else term
            if name == "stack" and b.get("axis") in (1, -1) and parts:
                term = mk("T", term)
                length = None
        elif name == "column_stack":
            parts = list(I.iterate(a)) if isinstance(a, (VList, tuple)) else []
            nd = 2
            term = mk("T", mk("rows", tuple(to_term(p) for p in parts))) if parts else term
        elif name == "atleast_1d":
            if self.ndof(a) and self.ndof(a) >= 1:
                return a if isinstance(a, SV) else self.as_array(a, True)
        elif name == "atleast_2d":
            if isinstance(a, VFrame):
                return self.frame_numpy(a, True)
            if self.ndof(a) == 2:
                return a
            if self.ndof(a) == 1:
                return SV(mk("rows", (to_term(a),)), "array", base=a if isinstance(a, SV) else None, nd=2, length=1)
            return SV(mk("call", "numpy.atleast_2d", (("a", to_term(a)),)), "array", nd=2)
        elif name == "ravel":
            return self.sv_ravel(a)
        elif name == "reshape":
            return self.sv_reshape(a, b.get("shape"))
        elif name in ("squeeze",):
            return SV(mk("call", "numpy.squeeze", (("a", to_term(a)),)), "array", base=a if isinstance(a, SV) else None)
        elif name == "transpose":
            return self.sv_attr(a, "T") if isinstance(a, SV) else self.frame_attr(a, "T")
        elif name in ("split", "array_split"):
            return self.np_split(a, b.get("n"), b.get("axis"))
        elif name == "histogram":
            edges_n = None
            bins = b.get("bins")
            n = self.lenof(bins)
            h = SV(mk("item", term, c(0)), "array", nd=1)
            e = SV(mk("item", term, c(1)), "array", nd=1, length=n)
            # given explicit edges, the returned edges are those edges
            if isinstance(bins, SV) and bins.kind == "array":
                e = SV(bins.term, "array", nd=1, length=n)
            return (h, e)
        elif name == "histogram2d":
            bs = b.get("bins")
            es = []
            for i in range(2):
                e = SV(mk("item", term, c(i + 1)), "array", nd=1)
                if isinstance(bs, (VList, tuple)):
                    x = (bs.items if isinstance(bs, VList) else bs)[i]
                    if isinstance(x, SV) and x.kind == "array":
                        e = SV(x.term, "array", nd=1, length=x.length)
                es.append(e)
            return (SV(mk("item", term, c(0)), "array", nd=2), es[0], es[1])
        elif name == "meshgrid":
            return VList([SV(mk("item", term, c(i)), "array", nd=2) for i in range(2)])
        elif name in ("cov", "corrcoef"):
            m = b.get("m", b.get("a"))
            ncol = len(m.cols) if isinstance(m, VFrame) else None
            if isinstance(m, VFrame):
                if ncol == 1:
                    return SV(term, "scalar", nd=0)
                return SV(term, "array", nd=2, length=ncol)
            rv = b.get("rowvar")
            nm = self.ndof(m)
            if nm == 1:
                return SV(term, "scalar", nd=0)
            meta = self.mat_cols(m)
            if meta is not None and rv is False:
                return SV(term, "scalar", nd=0) if meta == 1 else SV(term, "array", nd=2, length=meta)
            if isinstance(m, SV) and m.nd == 2 and rv in (None, True) and isinstance(m.length, int):
                return SV(term, "scalar", nd=0) if m.length == 1 else SV(term, "array", nd=2, length=m.length)
            return SV(term, "array")
        elif name in ("dot", "outer", "diag", "eye", "identity"):
            nd = 2 if name in ("outer", "eye", "identity") else None
            if name == "dot" and isinstance(a, SV) and a.nd == 2:
                b = args[1] if len(args) > 1 else kw.get("b")
                nd = {1: 1, 2: 2}.get(self.ndof(b)) if isinstance(b, (SV, VList, tuple)) else None
                if nd is not None:
                    length = a.length
            if name == "diag":
                d = self.ndof(a)
                nd = 1 if d == 2 else (2 if d == 1 else None)
                length = self.lenof(a)
                if d == 0:
                    I.throw(ValueError, "Input must be 1- or 2-d.")
        elif name == "interp":
            x = b.get("x")
            kind, length, nd = self.bcast(x)
        elif name in ("searchsorted", "digitize"):
            kind, length, nd = self.bcast(b.get("v") if name == "searchsorted" else b.get("x"))
        elif name in ("unique", "flatnonzero"):
            nd = 1
        elif name in ("percentile", "quantile"):
            kind, length, nd = self.bcast(b.get("q"))
        elif name == "nonzero":
            if self.ndof(a) == 1:
                return (SV(mk("item", mk("call", "numpy.where", (("cond", to_term(a)),)), c(0)), "array", nd=1),)
        elif name == "vectorize":
            f = a if not isinstance(a, SV) else None
            return Native("vectorized", lambda aa, kk: self.I.call(b.get("a", b.get("0")), aa, kk))
        else:
            kind = None
        if name == "flatnonzero":
            term = mk("item", mk("call", "numpy.where", (("cond", to_term(a)),)), c(0))
        if kind == "scalar":
            nd = 0
        return SV(term, kind, length=length, nd=nd)

    def mat_cols(self, m):
        """number of columns of a 2D symbolic matrix, if known"""
        if isinstance(m, SV):
            t = m.term
            if t.op == "frame":
                return len(t.a[0])
            if t.op == "T" and t.a[0].op == "rows":
                return len(t.a[0].a[0])
            return self.term_cols(t)
        return None

    def term_rows(self, t, n=0):
        """number of rows of a table whose columns are samples, of the table less a row, or of that times a matrix"""
        if not isinstance(t, Term) or n > 6:
            return None
        if t.op == "T" and t.a[0].op == "rows" and isinstance(t.a[0].a[0][0], Term):
            return self.I.facts.get(t.a[0].a[0][0], {}).get("length")
        if t.op == "bin":
            return self.term_rows(t.a[1], n + 1) or self.term_rows(t.a[2], n + 1)
        if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.matmul"):
            return self.term_rows(dict(t.a[1]).get("a"), n + 1)
        return None

    def term_cols(self, t, n=0):
        if not isinstance(t, Term) or n > 6:
            return None
        if t.op == "frame":
            return len(t.a[0])
        if t.op == "T" and t.a[0].op == "rows":
            return len(t.a[0].a[0])
        if t.op == "bin":
            return self.term_cols(t.a[1], n + 1) or self.term_cols(t.a[2], n + 1)
        if t.op == "call" and t.a[0] in ("numpy.dot", "numpy.matmul"):
            d = dict(t.a[1])
            sq = d.get("b")
            if isinstance(sq, Term) and sq.op == "call" and t.a[0] and sq.a[0].split(".")[-1] in ("cholesky", "inv", "cov", "pinv"):
                return self.term_cols(d.get("a"), n + 1)
            return self.term_cols(sq, n + 1)
        return None

    def np_split(self, a, n, axis=None):
        I = self.I
        k = self.ival(n) if not isinstance(n, (VList, tuple)) else None
        if k is None:
            return SV(mk("call", "numpy.split", (("a", to_term(a)), ("n", to_term(n)))), None)
        if isinstance(a, VFrame):
            return VList([self.frame_part(a, i, k) for i in range(k)])
        return VList([SV(mk("part", to_term(a), i, k, to_term(axis)), "array", base=a if isinstance(a, SV) else None, nd=self.ndof(a)) for i in range(k)])

    def np_random(self, path, name, args, kw):
        if name in ("default_rng", "RandomState", "Generator", "SeedSequence", "PCG64"):
            seed = args[0] if args else kw.get("seed")
            if isinstance(seed, ExtObj) and seed.kind == "Generator":
                return seed
            self.I.event("rng", seed=seed)
            return ExtObj("Generator", self.I.fresh("rng"), {"seed": seed, "n": 0}, term=mk("rngobj", to_term(seed)))
        self.I.event("ambient", path=path)
        if name == "seed":
            return None
        return SV(mk("ext", path, self.I.fresh("rand")), "array")

    # ------------------------------------------------------------------ array attributes
    def sv_attr(self, o, name):
        I = self.I
        if o.kind == "str" or (o.wit is not NOWIT and isinstance(o.wit, str)):
            if not hasattr(str, name):
                I.throw(AttributeError, name)
            return Native("str." + name, lambda a, k: self.strmeth(o, name, a, k))
        if o.term.op == "cdata":
            pass
        if name == "T":
            if o.nd == 1:
                return o
            t = o.term.a[0] if o.term.op == "T" else mk("T", o.term)
            return SV(t, "array", base=o, nd=o.nd)
        if name in ("values", "flat", "real"):
            return SV(o.term, "array", o.wit, base=o, length=o.length, nd=o.nd)
        if name == "shape":
            if o.nd == 1:
                return (self.b_len([o], {}),)
            if o.nd == 2:
                cols = self.mat_cols(o)
                rows = o.length
                if o.term.op == "rows" and rows is None:
                    rows = len(o.term.a[0])
                if rows is None:
                    rows = self.term_rows(o.term)
                if cols is None and o.term.op == "rows":
                    cols = SV(mk("len", o.term.a[0][0]), "scalar")
                return (rows if rows is not None else SV(mk("shape", o.term, 0), "scalar"), cols if cols is not None else SV(mk("shape", o.term, 1), "scalar"))
            if o.nd == 0:
                return ()
            return SV(mk("shape", o.term), "array", nd=1)
        if name == "size":
            if o.nd in (1, None):
                return self.b_len([o], {}) if o.nd == 1 or o.length is not None else SV(mk("len", o.term), "scalar")
            return SV(mk("size", o.term), "scalar")
        if name == "ndim":
            return o.nd if o.nd is not None else SV(mk("ndim", o.term), "scalar")
        if name == "dtype":
            return SV(mk("attr", o.term, "dtype"), None)
        if name == "empty":
            return SV(mk("cmp", "==", c(0), mk("len", o.term)), "bool")
        if name in ("iloc", "loc", "iat", "at"):
            return ExtObj("indexer", "ix", {"obj": o, "how": name})
        if name == "index":
            return SV(mk("attr", o.term, "index"), "array", length=o.length, nd=1)
        if name == "name":
            return o.term.a[1] if o.term.op == "col" else SV(mk("attr", o.term, "name"), "str")
        if name in ("str", "dt"):
            return o
        if o.kind in ("scalar", "bool") and name not in self.ARRMETH and not name.startswith("__"):
            if o.wit is not NOWIT and isinstance(o.wit, (int, float)) and not hasattr(o.wit, name) and name not in ("item", "astype"):
                I.throw(AttributeError, name)
        if name in self.ARRMETH or name in SIG or name in ELEM1 or o.kind in ("array", "series"):
            return Native("array." + name, lambda a, k: self.arrmeth(o, name, a, k))
        return ExtObj("symattr", name, {"sv": o}, term=mk("attr", o.term, name))

    ARRMETH = {"to_numpy", "copy", "astype", "flatten", "ravel", "reshape", "tolist", "item", "to_list", "min", "max", "sum",
               "mean", "std", "var", "any", "all", "cumsum", "argmax", "argmin", "idxmax", "idxmin", "argsort", "sort", "dot",
               "clip", "round", "abs", "isna", "isnull", "notna", "notnull", "quantile", "median", "unique", "nunique",
               "sort_values", "dropna", "reset_index", "apply", "map", "isin", "between", "diff", "prod", "squeeze",
               "transpose", "repeat", "fillna", "evaluate", "query", "query_ball_point", "cdf", "pdf", "logpdf", "rvs"}

    def arrmeth(self, o, name, a, k):
        I = self.I
        if k.get("inplace") is True:
            r = self.arrmeth(o, name, a, {q: v for q, v in k.items() if q != "inplace"})
            self.write_into(o, to_term(r), f"{name}(inplace)")
            return None
        if k.get("out") is not None and isinstance(k["out"], (SV, VList)):
            r = self.arrmeth(o, name, a, {q: v for q, v in k.items() if q != "out"})
            self.write_into(k["out"], to_term(r), f"{name}(out=)")
            return k["out"]
        if name in ("to_numpy",):
            if k.get("copy") is True:
                return SV(o.term, "array", o.wit, length=o.length, nd=o.nd or 1)
            return SV(o.term, "array", o.wit, base=o, length=o.length, nd=o.nd or 1)
        if name == "copy":
            return SV(o.term, o.kind, o.wit, length=o.length, nd=o.nd)
        if name == "astype":
            ty = a[0] if a else None
            n = ty.name if isinstance(ty, Native) else (ty if isinstance(ty, str) else (ty.path.split(".")[-1] if isinstance(ty, Ext) else "?"))
            if n in ("float", "float64", "float128", "double", "longdouble"):
                return SV(o.term, o.kind, o.wit, length=o.length, nd=o.nd)
            return SV(mk("call", "astype", (("0", o.term), ("1", c(n)))), o.kind, length=o.length, nd=o.nd)
        if name in ("flatten", "ravel"):
            r = self.sv_ravel(o)
            if name == "flatten" and isinstance(r, SV):
                r = SV(r.term, "array", length=r.length, nd=1)
            return r
        if name == "reshape":
            s = a[0] if len(a) == 1 else tuple(a)
            return self.sv_reshape(o, s)
        if name in ("tolist", "to_list"):
            n = self.conc_len(o)
            if n is not None:
                return VList([self.getitem(o, i) for i in range(n)])
            if o.nd == 0:
                return o
            return SV(o.term, "array", length=o.length, nd=o.nd)
        if name == "item":
            return SV(o.term, "scalar", o.wit, nd=0) if not a else self.getitem(o, a[0])
        if name == "sort":
            I.mutate(o, "sort()")
            o.term = mk("call", "numpy.sort", (("a", o.term),))
            return None
        if name in ("fill", "put", "resize", "itemset"):
            I.mutate(o, name + "()")
            o.term = mk("mutated", o.term, mk("list", tuple(to_term(x) for x in a)))
            return None
        if name in ("isna", "isnull"):
            return self.np("isnan", o)
        if name in ("notna", "notnull"):
            r = self.np("isnan", o)
            return SV(mk("not", r.term), r.kind, length=r.length, nd=r.nd)
        if name in ("idxmax", "idxmin"):
            return SV(mk("call", "pandas." + name, (("a", o.term),)), "scalar", nd=0)
        if name in ("std", "var") and o.kind == "series":
            if not a and "ddof" not in k:
                k = {**k, "ddof": 1}
            return self.np(name, o, *a, **k)
        if name == "dot":
            return self.np("dot", o, *a)
        if name in ("add", "sub", "subtract", "mul", "multiply", "div", "divide", "truediv", "pow"):
            op = {"add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "div": "/", "divide": "/", "truediv": "/", "pow": "**"}[name]
            return self.arith(op, o, a[0])
        if name in ("lt", "le", "gt", "ge", "eq", "ne"):
            return I.compare({"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[name], o, a[0])
        if name == "between":
            return self.arith("&", self.cmp(">=", o, a[0]), self.cmp("<=", o, a[1]))
        if name in ("apply", "map", "transform"):
            return SV(to_term(self.I.call(a[0], [o if name != "map" else SV(mk("elem", o.term, 0), "scalar")], {})), o.kind, length=o.length)
        if name == "sort_values":
            t = mk("call", "numpy.sort", (("a", o.term),))
            if k.get("ascending", True) is False:
                t = mk("item", t, mk("slice", c(None), c(None), c(-1)))
            return SV(t, o.kind, length=o.length, nd=1)
        if name in ("reset_index",):
            return SV(o.term, o.kind, length=o.length, nd=o.nd)
        if name == "items":
            return VList([(SV(mk("idx", o.term, 0), "scalar"), SV(mk("elem", o.term, 0), "scalar"))])
        if name == "nunique":
            return SV(mk("call", "nunique", (("0", o.term),)), "scalar")
        if name == "unique":
            return self.np("unique", o)
        if name in ("argsort",) and o.kind == "series":
            return self.np("argsort", o)
        if name == "abs":
            return self.np("abs", o)
        if name in SIG or name in ELEM1:
            kk = dict(k)
            return self.np(name, o, *a, **kk)
        if name == "sort_index":
            return SV(mk("call", "sort_index", (("0", o.term),)), o.kind, length=o.length, nd=1)
        if name in ("dropna",):
            return SV(mk("call", "dropna", (("0", o.term),)), o.kind, nd=1)
        if name in ("fillna", "replace", "rank", "rolling"):
            return SV(mk("call", name, (("0", o.term),) + tuple((str(i + 1), to_term(x)) for i, x in enumerate(a))), o.kind, length=o.length, nd=1)
        if name in ("to_dict",):
            return I.unk("series to_dict")
        if name == "set_index" or name == "rename":
            return o
        if name == "setflags":
            return None
        I.event("svcall", sv=o, name=name, args=a, kw=k)
        return SV(mk("mcall", name, o.term, tuple(to_term(x) for x in a), tuple((q, to_term(v)) for q, v in sorted(k.items()))), None)

    def sv_ravel(self, a):
        if isinstance(a, VGrid):
            return VList([x for r in a.rows for x in r], kind="axrow")
        if isinstance(a, SV):
            if a.nd == 1:
                return SV(a.term, "array", base=a, length=a.length, nd=1)
            return SV(mk("ravel", a.term), "array", base=a, nd=1)
        return SV(mk("ravel", to_term(a)), "array", nd=1)

    def sv_reshape(self, a, s):
        if isinstance(a, (VList, tuple)):
            a = self.as_array(a, True)
        if s == -1 or s == (-1,):
            return self.sv_ravel(a)
        if isinstance(s, tuple) and len(s) == 2 and s[0] == -1 and s[1] == 1 and isinstance(a, SV) and a.nd in (1,):
            return SV(mk("T", mk("rows", (a.term,))), "array", base=a, nd=2, length=a.length)
        if isinstance(s, tuple) and len(s) == 2 and s[0] == 1 and s[1] == -1 and isinstance(a, SV) and a.nd in (1,):
            return SV(mk("rows", (a.term,)), "array", base=a, nd=2, length=1)
        # reshape of a raveled array back to its own shape is the array itself
        nd = len(s) if isinstance(s, tuple) else (None if isinstance(s, SV) else 1)
        return SV(mk("reshape", to_term(a), to_term(s)), "array", base=a if isinstance(a, SV) else None, nd=nd,
                  length=s[0] if isinstance(s, tuple) and s and isinstance(s[0], (int, SV)) and s[0] != -1 else None)

    # ------------------------------------------------------------------ array items
    def sv_getitem(self, o, k):
        I = self.I
        if o.wit is not NOWIT and isinstance(o.wit, (str, tuple, list)):
            kk = k
            if isinstance(k, SV):
                kk = k.wit
            if isinstance(kk, slice):
                kk = slice(*[self.ival(x) if x is not None else None for x in (kk.start, kk.stop, kk.step)])
            try:
                w = o.wit[kk]
            except IndexError:
                I.throw(IndexError, "string index out of range")
            except TypeError:
                w = NOWIT
            return SV(mk("item", o.term, to_term(k)), "str", wit=w)
        if o.term.op == "T" and o.term.a[0].op == "frame" and isinstance(k, int) and not isinstance(k, bool) and -len(o.term.a[0].a[1]) <= k < len(o.term.a[0].a[1]):
            return SV(o.term.a[0].a[1][k], "array", base=o, nd=1, length=getattr(o.base, "nrows", None))
        if o.term.op == "cat" and o.kind == "str":
            ps = o.term.a[0]
            kk = self.ival(k) if not isinstance(k, slice) else None
            if kk is not None and kk >= 0 and isinstance(ps[0], str) and kk < len(ps[0]):
                return ps[0][kk]
            if kk is not None and kk < 0 and isinstance(ps[-1], str) and -kk <= len(ps[-1]):
                return ps[-1][kk]
            if isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, int) and isinstance(ps[0], str) and 0 <= k.start <= len(ps[0]):
                return I.cat([ps[0][k.start:]] + [x if isinstance(x, str) else SV(x, "str") for x in ps[1:]])
            if isinstance(k, slice) and k.start in (None, 0) and k.step is None and isinstance(k.stop, int) and 0 <= k.stop and isinstance(ps[0], str) and k.stop <= len(ps[0]):
                return ps[0][:k.stop]
            if isinstance(k, slice) and k.start in (None, 0) and k.step is None and isinstance(k.stop, int) and k.stop < 0 and isinstance(ps[-1], str) and -k.stop <= len(ps[-1]):
                return I.cat([x if isinstance(x, str) else SV(x, "str") for x in ps[:-1]] + [ps[-1][:k.stop]])
            return SV(mk("item", o.term, to_term(k)), "str")
        if o.kind in ("scalar", "bool") and o.term.op not in ("cdata",):
            I.throw(TypeError, "scalar is not subscriptable")
        if isinstance(k, (VList, VSet)) and not isinstance(k, tuple):
            if isinstance(k, VList) and len(k.items) == 1 and isinstance(k.items[0], str):
                pass
            k = self.as_array(k, True)
        t = o.term
        if isinstance(k, tuple):
            if len(k) == 1:
                return self.sv_getitem(o, k[0])
            return self.sv_getitem_tuple(o, k)
        if k is None:
            return SV(mk("item", t, c(None)), "array", base=o, nd=(o.nd + 1) if o.nd is not None else None)
        if k is ...:
            return SV(t, o.kind, base=o, length=o.length, nd=o.nd)
        if isinstance(k, slice):
            if k.start is None and k.stop is None and (k.step is None or k.step == 1):
                return SV(t, o.kind, base=o, length=o.length, nd=o.nd)
            n = o.length
            ln = None
            iv = [x if x is None or isinstance(x, int) else "?" for x in (k.start, k.stop, k.step)]
            if isinstance(n, int) and "?" not in iv:
                ln = len(range(*slice(*iv).indices(n)))
                if t.op == "list":
                    return SV(mk("list", tuple(t.a[0][slice(*iv)])), o.kind, base=o, length=ln, nd=o.nd)
            if iv == [None, None, -1]:
                ln = n
                if t.op == "item" and isinstance(t.a[1], Term) and t.a[1] is mk("slice", c(None), c(None), c(-1)):
                    return SV(t.a[0], o.kind, base=o, length=n, nd=o.nd)
            return SV(mk("item", t, to_term(k)), o.kind, base=o, length=ln, nd=o.nd)
        if isinstance(k, str):
            return SV(mk("item", t, c(k)), None)
        if isinstance(k, SV) and k.kind in ("array", "series"):
            nd = o.nd
            if k.nd is not None and o.nd is not None:
                nd = o.nd if k.nd == 1 else (1 if k.nd == o.nd else None)
            isbool = k.term.op in ("cmp", "not") or k.term.op == "bin" and k.term.a[0] in "&|"
            return SV(mk("item", t, k.term), "array" if o.kind != "series" else "series", nd=nd, length=None if isbool else k.length)
        if isinstance(k, float):
            I.throw(IndexError, "only integers, slices are valid indices")
        i = k if isinstance(k, int) else None
        if o.kind == "series" and o.lab not in (None, "range") and k is not None and not isinstance(k, str):
            return SV(mk("row", t, "label", to_term(k), o.lab), "scalar", nd=0)
        if i is not None:
            i = int(i)
            if isinstance(o.length, int) and not -o.length <= i < o.length:
                I.throw(IndexError, "index out of bounds")
            if t.op == "list" and -len(t.a[0]) <= i < len(t.a[0]):
                x = t.a[0][i]
                return self.from_term(x, o)
            if t.op == "rows" and -len(t.a[0]) <= i < len(t.a[0]):
                return SV(t.a[0][i], "array", base=o, nd=1)
            if t.op == "setitem" and isinstance(t.a[1], Term) and t.a[1].op == "c":
                j = t.a[1].a[0]
                if j == i:
                    return self.from_term(t.a[2], o)
                if isinstance(j, int) and (j >= 0) == (i >= 0):
                    return self.sv_getitem(SV(t.a[0], o.kind, length=o.length, nd=o.nd), i)
            if isinstance(o.length, int) and i < 0:
                i = i + o.length
            # elementwise operation on short known lists: distribute
            r = self.dist_item(o, i)
            if r is not None:
                return r
        kk = i if i is not None else k
        kind = None
        nd = None
        if o.nd is not None:
            nd = o.nd - 1
            kind = "scalar" if nd == 0 else "array"
        elif o.kind == "array" or o.kind == "series":
            kind = None
        return SV(mk("item", t, to_term(kk)), kind, nd=nd, base=o if kind == "array" else None)

    def dist_item(self, o, i):
        t = o.term
        n = o.length
        if not isinstance(n, int) or n > 64:
            return None
        if t.op == "bin":
            parts = []
            for x in t.a[1:]:
                if x.op == "list" and len(x.a[0]) == n:
                    parts.append(x.a[0][i])
                elif x.op == "c":
                    parts.append(x)
                else:
                    return None
            return SV(mk("bin", t.a[0], *parts), "scalar", nd=0)
        return None

    def from_term(self, x, o=None):
        if x.op == "c":
            return x.a[0]
        if x.op == "list":
            return SV(x, "array", length=len(x.a[0]), nd=1)
        nd = None if o is None or o.nd is None else o.nd - 1
        return SV(x, "scalar" if nd == 0 else ("array" if nd else None), nd=nd, wit=self.term_wit(x))

    def term_wit(self, t):
        return self.I.lib.witmap.get(t, NOWIT) if hasattr(self, "witmap") else NOWIT

    def sv_getitem_tuple(self, o, k):
        t = o.term
        ks = [x for x in k]
        # [None, :] / [:, None] on a vector
        nones = sum(1 for x in ks if x is None)
        if nones:
            nd = (o.nd or 1) + nones
            return SV(mk("newaxis", t, tuple("n" if x is None else "s" for x in ks)), "array", base=o, nd=nd)
        if len(ks) == 2 and isinstance(ks[0], slice) and ks[0] == slice(None, None, None):
            # column selection of a matrix
            j = ks[1]
            if isinstance(j, int):
                if t.op == "frame":
                    col = t.a[1][j]
                    return SV(col, "array", base=o, nd=1)
                if t.op == "T" and t.a[0].op == "rows":
                    return SV(t.a[0].a[0][j], "array", base=o, nd=1)
        if len(ks) == 2 and t.op == "frame" and isinstance(ks[1], int) and isinstance(ks[0], slice):
            col = SV(t.a[1][ks[1]], "array", base=o, nd=1)
            return self.sv_getitem(col, ks[0])
        ints = sum(1 for x in ks if not isinstance(x, slice) and not (isinstance(x, SV) and x.kind == "array"))
        nd = o.nd - ints if o.nd is not None else None
        view = all(isinstance(x, (slice, int)) for x in ks)
        return SV(mk("item", t, mk("list", tuple(to_term(x) for x in ks))), "scalar" if nd == 0 else "array", nd=nd, base=o if view and nd else None)

    def sv_setitem(self, o, k, v):
        I = self.I
        I.mutate(o, "[]=")
        if o.term.op == "list" and isinstance(k, int) and -len(o.term.a[0]) <= k < len(o.term.a[0]):
            xs = list(o.term.a[0])
            xs[k] = to_term(v)
            o.term = mk("list", tuple(xs))
        else:
            if isinstance(k, int) and isinstance(o.length, int) and k < 0:
                k += o.length
            o.term = mk("setitem", o.term, to_term(k), to_term(v))
        b = o.base
        n = 0
        while isinstance(b, SV) and n < 10:
            b.term = mk("mutated", b.term, o.term)
            b = b.base
            n += 1

    # ------------------------------------------------------------------ scipy / statsmodels
    SCI = {
        "scipy.integrate.simpson": "y x dx axis", "scipy.interpolate.interp1d": "x y kind axis copy bounds_error fill_value",
        "scipy.ndimage.gaussian_filter": "input sigma order output mode", "scipy.ndimage.gaussian_filter1d": "input sigma axis order output mode",
        "scipy.interpolate.griddata": "points values xi method fill_value rescale", "scipy.spatial.cKDTree": "data leafsize",
        "scipy.spatial.KDTree": "data leafsize", "scipy.stats.normaltest": "a", "scipy.integrate.trapezoid": "y x dx",
        "scipy.integrate.cumulative_trapezoid": "y x dx", "scipy.stats.norm.cdf": "x loc scale", "scipy.stats.norm.ppf": "q loc scale",
        "scipy.special.erf": "x", "scipy.optimize.root_scalar": "f args method bracket fprime fprime2 x0 x1 xtol rtol",
        "scipy.optimize.brentq": "f a b args xtol rtol", "scipy.optimize.bisect": "f a b args xtol rtol",
        "scipy.spatial.distance.cdist": "a b", "scipy.special.ndtr": "x",
    }

    def call_scipy(self, path, args, kw):
        I = self.I
        name = path.split(".")[-1]
        if path in ("scipy.stats.multivariate_normal",):
            m = args[0] if args else kw.get("mean")
            cv = args[1] if len(args) > 1 else kw.get("cov")
            return ExtObj("frozen_rv", I.fresh("rv"), {"mean": m, "cov": cv}, term=mk("call", path, (("cov", to_term(cv)), ("mean", to_term(m)))))
        names = self.SCI.get(path, "").split()
        if path.startswith("scipy.optimize."):
            f = args[0] if args else kw.get("f")
            if isinstance(f, (Func, Bound, Native)):
                extra = kw.get("args", args[3] if len(args) > 3 and name != "root_scalar" else (args[1] if name == "root_scalar" and len(args) > 1 else ()))
                if isinstance(extra, VList):
                    extra = tuple(extra.items)
                if not isinstance(extra, tuple):
                    extra = (extra,)
                x = SV(mk("sym", "root-variable", I.fresh("rootvar")), "scalar", nd=0)
                val = I.call(f, [x, *extra], {})
                t = self.callterm(path, names, args, {**kw})
                t = mk("root", path, x.term, to_term(val), t)
                I.event("rootfind", term=t, var=x, value=val, args=args, kw=kw)
                if name == "root_scalar":
                    return ExtObj("RootResults", I.fresh("root"), {"root": SV(t, "scalar", nd=0)})
                return SV(t, "scalar", nd=0)
        args = [VList(list(I.iterate(a))) if isinstance(a, VIter) else a for a in args]
        t = self.callterm(path, names, args, kw)
        if name == "rvs" and kw.get("random_state") is None:
            I.event("ambient", path=path + " without random_state")
            return SV(mk("ext", "rvs", I.fresh("rvs")), "array")
        I.event("scicall", path=path, term=t)
        if name in ("simpson", "trapezoid"):
            return SV(t, "scalar", nd=0)
        if name in ("gaussian_filter", "gaussian_filter1d"):
            kind, length, nd = self.bcast(args[0] if args else kw.get("input"))
            return SV(t, "array", length=length, nd=nd)
        if name in ("cdf", "ppf", "erf", "ndtr", "pdf", "logpdf"):
            kind, length, nd = self.bcast(args[0])
            return SV(t, kind, length=length, nd=nd)
        if name in ("normaltest", "yule_walker", "ks_2samp", "shapiro"):
            return (SV(mk("item", t, c(0)), "scalar" if name != "yule_walker" else "array", nd=None if name == "yule_walker" else 0),
                    SV(mk("item", t, c(1)), "scalar", nd=0))
        if name in ("interp1d", "UnivariateSpline", "PchipInterpolator", "CubicSpline", "InterpolatedUnivariateSpline"):
            return SV(t, "callable")
        if name == "griddata":
            return SV(t, "array", nd=1)
        return SV(t, None)
