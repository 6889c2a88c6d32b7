from __future__ import annotations

import math

from terms import mk, c
from values import *  # noqa: F403
from values import NOWIT, SV, Ext


def conc(v):
    return v is None or v is ... or isinstance(v, (bool, int, float, str, bytes))


class BuiltinMixin:
    # ------------------------------------------------------------------ builtins table
    def builtins(self):
        names = ["len", "range", "enumerate", "zip", "min", "max", "sum", "any", "all", "abs", "int", "float", "str",
                 "bool", "list", "dict", "set", "frozenset", "tuple", "isinstance", "issubclass", "type", "getattr",
                 "setattr", "hasattr", "next", "iter", "sorted", "reversed", "map", "filter", "print", "round", "chr",
                 "ord", "repr", "format", "id", "callable", "open", "vars", "super", "hash", "divmod", "pow", "slice",
                 "delattr", "bytes", "complex", "dir", "input", "locals"]
        b = {n: Native(n, getattr(self, "b_" + n, None) or (lambda a, k, n=n: self.I.unk("builtin " + n))) for n in names}
        b["property"] = Native("property", lambda a, k: Deco("property", a[0]))
        b["staticmethod"] = Native("staticmethod", lambda a, k: Deco("staticmethod", a[0]))
        b["classmethod"] = Native("classmethod", lambda a, k: Deco("classmethod", a[0]))
        b["object"] = Ext("object")
        b["NotImplemented"] = None
        b["Ellipsis"] = ...
        b["__debug__"] = True
        b["__import__"] = Native("__import__", lambda a, k: self.I.import_name(a[0]))
        return b

    def b_len(self, a, k):
        v = a[0]
        if isinstance(v, str):
            return len(v)
        if isinstance(v, VList):
            return len(v.items)
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, (VDict, VSet)):
            return len(v.d)
        if isinstance(v, VFrame):
            return v.nrows
        if isinstance(v, VRow):
            return len(v.cols)
        if isinstance(v, VGrid):
            return len(v.rows)
        if isinstance(v, SV):
            if v.wit is not NOWIT and isinstance(v.wit, (str, tuple, list)):
                return SV(mk("len", v.term), "scalar", wit=len(v.wit))
            if v.length is not None:
                return v.length
            n = self.conc_len(v)
            if n is not None:
                return n
            if v.kind == "scalar":
                self.I.throw(TypeError, "object of type scalar has no len()")
            return SV(mk("len", v.term), "scalar")
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.I.call(Bound(m, v), [], {})
        if isinstance(v, Cls) and v.members is not None:
            return len(v.members)
        if v is None or isinstance(v, (int, float)):
            self.I.throw(TypeError, f"object of type {type(v).__name__} has no len()")
        return SV(mk("len", to_term(v)), "scalar")

    def ival(self, v):
        """concrete integer of v, using the partition witness"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, SV) and v.wit is not NOWIT and isinstance(v.wit, (int, bool)):
            return int(v.wit)
        return None

    def b_range(self, a, k):
        xs = [self.ival(x) for x in a]
        if any(isinstance(x, (float, str)) or x is None for x in a):
            self.I.throw(TypeError, "object cannot be interpreted as an integer")
        if any(x is None for x in xs):
            s = a[0] if len(a) > 1 else 0
            e = a[1] if len(a) > 1 else a[0]
            return SV(mk("call", "range", (("0", to_term(s)), ("1", to_term(e)))), "array", nd=1)
        r = range(*xs)
        if len(r) > 64:
            return SV(mk("call", "range", tuple((str(i), to_term(x)) for i, x in enumerate(a))), "array", nd=1)
        return r

    def b_enumerate(self, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        it, known = self.I.iter2(a[0])

        def gen():
            i = 0
            for x in it:
                yield ((start + i) if known else (SV(mk("idx", to_term(a[0]), i), "scalar") if i else start), x)
                i += 1

        return VIter(gen(), unbounded=not known)

    def b_zip(self, a, k):
        strict = k.get("strict", False)
        its = []
        for x in a:
            its.append((x, *self.I.iter2(x)))
        anyk = any(kn for _, _, kn in its)
        I = self.I

        def unb(x, it):
            n = 0
            for y in it:
                yield y
                n += 1
            while True:
                yield SV(mk("elem", to_term(x), n), None)
                n += 1

        lens = []
        if strict and self.I.truth(strict):
            ok = True
            for x, it, kn in its:
                if isinstance(x, VList):
                    lens.append(len(x.items))
                elif isinstance(x, (tuple, str)):
                    lens.append(len(x))
            if lens and len(set(lens)) > 1:
                I.throw(ValueError, "zip() arguments have different lengths")
        gens = [unb(x, it) if (anyk and not kn) else it for x, it, kn in its]
        return VIter(zip(*gens), unbounded=not anyk and bool(its))

    def _minmax(self, a, k, which):
        I = self.I
        key = k.get("key")
        if len(a) == 1:
            v = a[0]
            if isinstance(v, SV):
                return self.call_numpy("numpy." + which, [v], {})
            xs = list(I.iterate(v))
        else:
            xs = list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            I.throw(ValueError, f"{which}() iterable argument is empty")
        if len(xs) == 1:
            return xs[0]
        ks = [I.call(key, [x], {}) for x in xs] if key is not None else xs
        if all(conc(x) for x in ks):
            try:
                i = max(range(len(xs)), key=lambda j: (ks[j], -j)) if which == "max" else min(range(len(xs)), key=lambda j: (ks[j], j))
            except TypeError as ex:
                I.throw(TypeError, str(ex))
            return xs[i]
        if key is not None:
            best = xs[0], ks[0]
            for x, kk in zip(xs[1:], ks[1:]):
                if I.truth(I.compare("<" if which == "min" else ">", kk, best[1])):
                    best = x, kk
            return best[0]
        if any(x is None for x in xs):
            I.throw(TypeError, "'<' not supported between NoneType and number")
        if any(isinstance(x, str) for x in xs):
            I.throw(TypeError, "'<' not supported between str and number")
        wit = NOWIT
        ws = [self.wit(x) for x in xs]
        if all(w is not NOWIT for w in ws):
            try:
                wit = (max if which == "max" else min)(ws)
            except TypeError:
                pass
        ts = tuple(sorted({to_term(x) for x in xs}, key=lambda t: t.id))
        if len(ts) == 1:
            return xs[0]
        # infinities that lose every comparison are neutral
        neutral = float("-inf") if which == "max" else float("inf")
        rest = [x for x in xs if not (isinstance(x, float) and x == neutral)]
        if len(rest) == 1:
            return rest[0]
        if len(rest) < len(xs):
            ts = tuple(sorted({to_term(x) for x in rest}, key=lambda t: t.id))
        return SV(mk("pick", which, ts), "scalar", wit=wit)

    def b_min(self, a, k):
        return self._minmax(a, k, "min")

    def b_max(self, a, k):
        return self._minmax(a, k, "max")

    def wit(self, x):
        if isinstance(x, SV):
            return x.wit
        return x if conc(x) else NOWIT

    def b_sum(self, a, k):
        v = a[0]
        start = a[1] if len(a) > 1 else k.get("start", 0)
        if isinstance(v, SV) and self.conc_len(v) is None:
            r = self.call_numpy("numpy.sum", [v], {})
            return r if start == 0 and not isinstance(start, SV) else self.I.binop("+", start, r)
        acc = start
        for x in self.I.iterate(v):
            acc = self.I.binop("+", acc, x) if not (conc(acc) and acc == 0 and isinstance(x, SV)) else x
        return acc

    def b_any(self, a, k):
        if isinstance(a[0], SV) and self.conc_len(a[0]) is None:
            return self.call_numpy("numpy.any", [a[0]], {})
        for x in self.I.iterate(a[0]):
            if self.I.truth(x):
                return True
        return False

    def b_all(self, a, k):
        if isinstance(a[0], SV) and self.conc_len(a[0]) is None:
            return self.call_numpy("numpy.all", [a[0]], {})
        for x in self.I.iterate(a[0]):
            if not self.I.truth(x):
                return False
        return True

    def b_abs(self, a, k):
        if isinstance(a[0], (int, float)):
            return abs(a[0])
        if a[0] is None or isinstance(a[0], (str, tuple)):
            self.I.throw(TypeError, "bad operand type for abs()")
        return self.call_numpy("numpy.abs", a, {})

    def b_int(self, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (int, float, str)):
            try:
                return int(v, *[x for x in a[1:]]) if isinstance(v, str) else int(v)
            except (ValueError, OverflowError, TypeError) as ex:
                self.I.throw(type(ex), str(ex))
        if v is None:
            self.I.throw(TypeError, "int() argument must be a string or a number, not NoneType")
        if isinstance(v, (VList, VDict, tuple, Inst)):
            self.I.throw(TypeError, "int() argument must be a string or a number")
        w = NOWIT
        if isinstance(v, SV) and v.wit is not NOWIT:
            try:
                w = int(v.wit, *a[1:]) if isinstance(v.wit, str) else int(v.wit)
            except (ValueError, OverflowError, TypeError) as ex:
                self.I.throw(type(ex), str(ex))
        t = to_term(v)
        if t.op == "call" and t.a[0] in ("int", "len") or t.op in ("len", "nrows"):
            return SV(t, "scalar", wit=w)
        return SV(mk("call", "int", (("0", t),) + tuple((str(i + 1), to_term(x)) for i, x in enumerate(a[1:]))), "scalar", wit=w)

    def b_float(self, a, k):
        if not a:
            return 0.0
        v = a[0]
        if isinstance(v, (int, float, str)):
            try:
                return NPF(float(v)) if isinstance(v, NPF) else float(v)
            except (ValueError, OverflowError) as ex:
                self.I.throw(type(ex), str(ex))
        if v is None:
            self.I.throw(TypeError, "float() argument must be a string or a real number, not NoneType")
        if isinstance(v, (VList, VDict, tuple, Inst)):
            self.I.throw(TypeError, "float() argument must be a string or a real number")
        if isinstance(v, ExtMeth):
            v = self.force(v)
        if isinstance(v, SV):
            w = v.wit
            if w is not NOWIT:
                try:
                    w = float(w)
                except (TypeError, ValueError) as ex:
                    self.I.throw(type(ex), str(ex))
            return SV(v.term, "scalar", wit=w, nd=0)
        return SV(to_term(v), "scalar", nd=0)

    def b_str(self, a, k):
        if not a:
            return ""
        v = a[0]
        if isinstance(v, SV) and v.kind == "str":
            return v
        if isinstance(v, (VList, VDict, VSet, tuple)):
            return self.repr_(v)
        return self.I.fmt(v)

    def b_bool(self, a, k):
        if not a:
            return False
        v = a[0]
        if isinstance(v, SV) and v.wit is NOWIT and self.known_truth(v.term) is None:
            return SV(v.term, "bool") if v.term.op in ("cmp", "not", "and", "or") else self.I.truth(v)
        return self.I.truth(v)

    def b_list(self, a, k):
        return VList(list(self.I.iterate(a[0])) if a else [])

    def b_tuple(self, a, k):
        return tuple(self.I.iterate(a[0])) if a else ()

    def b_set(self, a, k):
        return VSet(list(self.I.iterate(a[0])) if a else [])

    b_frozenset = b_set

    def b_dict(self, a, k):
        d = VDict()
        if a:
            v = a[0]
            if isinstance(v, VDict):
                for kk, vv in v.items():
                    d.set(kk, vv)
            elif isinstance(v, VRow):
                for kk, vv in v.cols.items():
                    d.set(kk, vv)
            else:
                for p in self.I.iterate(v):
                    x = list(self.I.iterate(p))
                    d.set(x[0], x[1])
        for kk, vv in k.items():
            d.set(kk, vv)
        return d

    def b_type(self, a, k):
        v = a[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, EnumMember):
            return v.cls
        for n, ty in (("bool", bool), ("int", int), ("float", float), ("str", str)):
            if isinstance(v, ty) or (isinstance(v, SV) and v.wit is not NOWIT and isinstance(v.wit, ty)):
                return self.I.builtins[n]
        return self.I.unk("type()")

    TYPES = {"int": int, "float": float, "str": str, "bool": bool}

    def b_isinstance(self, a, k):
        return self.isinstance_(a[0], a[1])

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            res = False
            for x in t:
                r = self.isinstance_(v, x)
                if r is True:
                    return True
                if isinstance(r, SV):
                    res = r
            return res
        if hasattr(t, "args") and type(t).__name__ == "UnionT":
            return self.isinstance_(v, tuple(t.args))
        if t is None:
            return v is None
        if isinstance(t, ExtObj) and t.kind == "generic":
            t = t.meta["base"]
        if isinstance(v, ExtMeth):
            v = self.force(v)
        if isinstance(t, Cls):
            if isinstance(v, (Inst, EnumMember)):
                return t in v.cls.mro()
            return False
        if isinstance(t, Native):
            n = t.name
            if n in self.TYPES:
                ty = self.TYPES[n]
                if isinstance(v, SV):
                    if v.wit is not NOWIT:
                        if isinstance(v.wit, bool) and n == "int":
                            return True
                        return isinstance(v.wit, ty)
                    if v.kind == "str":
                        return n == "str"
                    if v.kind in ("array", "series", "callable"):
                        return False
                    if v.kind == "bool":
                        return n in ("bool",)
                    if v.kind == "scalar":
                        return n == "float"
                    return SV(mk("isinst", n, v.term), "bool")
                if isinstance(v, EnumMember):
                    return any(isinstance(b, Native) and b.name == n for b in v.cls.mro()) or isinstance(v.value, ty) and any(
                        isinstance(b, Ext) and b.path.endswith(("StrEnum", "IntEnum")) for b in v.cls.mro())
                return isinstance(v, ty)
            if n == "list":
                return isinstance(v, VList) and v.kind in ("list", "axrow")
            if n == "dict":
                return isinstance(v, VDict)
            if n in ("set", "frozenset"):
                return isinstance(v, VSet)
            if n == "tuple":
                return isinstance(v, tuple)
            if n == "range":
                return isinstance(v, range)
            if n == "type":
                return isinstance(v, (Cls, Ext))
            return self.I.unk("isinstance")
        if isinstance(t, type) and issubclass(t, BaseException):
            return isinstance(v, ExtObj) and isinstance(v.meta.get("exc"), type) and issubclass(v.meta["exc"], t)
        if isinstance(t, Ext):
            p = t.path
            last = p.split(".")[-1]
            if last == "ndarray":
                return (isinstance(v, SV) and v.kind == "array") or isinstance(v, VGrid) or (
                    isinstance(v, VList) and v.kind in ("index-array",))
            if last == "Series":
                return (isinstance(v, SV) and v.kind == "series") or isinstance(v, VRow)
            if last == "DataFrame":
                return isinstance(v, VFrame)
            if last in ("Sequence", "Iterable", "Collection", "Sized", "Container", "MutableSequence"):
                if isinstance(v, VList) or isinstance(v, (tuple, str, range)):
                    return True
                if last in ("Iterable", "Collection", "Sized", "Container"):
                    return isinstance(v, (VDict, VSet, VFrame)) or (isinstance(v, SV) and v.kind in ("array", "series", "str"))
                return isinstance(v, SV) and v.kind == "str"
            if last in ("Mapping", "MutableMapping"):
                return isinstance(v, VDict)
            if last in ("Callable",):
                return isinstance(v, (Func, Bound, Native, Cls, ExtMeth, Ext))
            if last in ("Number", "Real", "Integral"):
                if isinstance(v, SV):
                    return v.kind == "scalar"
                return isinstance(v, (int, float) if last != "Integral" else int)
            if last in ("integer", "int64"):
                return False if not isinstance(v, SV) else SV(mk("isinst", last, v.term), "bool")
            if last in ("floating", "float64"):
                return isinstance(v, NPF)
            if last == "Path" or last == "PathLike":
                return isinstance(v, ExtObj) and v.kind == "Path"
            if isinstance(v, ExtObj):
                return v.kind == last or v.kind.split(".")[-1] == last
            if isinstance(v, Inst):
                return t in v.cls.mro()
            if p == "object":
                return True
            if isinstance(v, SV) and v.kind in (None, "obj"):
                return SV(mk("isinst", p, v.term), "bool")
            return False
        return self.I.unk("isinstance")

    def b_issubclass(self, a, k):
        if isinstance(a[0], Cls):
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            return any(t in a[0].mro() for t in ts)
        return self.I.unk("issubclass")

    def b_getattr(self, a, k):
        n = a[1].wit if isinstance(a[1], SV) and a[1].wit is not NOWIT else a[1]
        if not isinstance(n, str):
            return self.I.unk("getattr dynamic")
        if len(a) > 2:
            try:
                return self.I.getattr(a[0], n)
            except PyExc as e:
                if self.I.exc_matches(e, AttributeError):
                    return a[2]
                raise
        return self.I.getattr(a[0], n)

    def b_hasattr(self, a, k):
        try:
            self.I.getattr(a[0], a[1])
            return True
        except PyExc as e:
            if self.I.exc_matches(e, AttributeError):
                return False
            raise

    def b_setattr(self, a, k):
        self.I.setattr(a[0], a[1], a[2])

    def b_delattr(self, a, k):
        self.I.mutate(a[0], f"del {a[1]}")
        if isinstance(a[0], Inst):
            a[0].f.pop(a[1], None)

    def b_vars(self, a, k):
        if isinstance(a[0], Inst):
            return self.inst_attr(a[0], "__dict__")
        return self.I.unk("vars")

    def b_iter(self, a, k):
        v = a[0]
        if isinstance(v, VIter):
            return v
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return self.b_iter([self.I.call(Bound(m, v), [], {})], {})
        it, known = self.I.iter2(v)
        return VIter(it, not known)

    def b_next(self, a, k):
        v = a[0]
        if isinstance(v, VIter):
            try:
                return next(v.it)
            except StopIteration:
                if len(a) > 1:
                    return a[1]
                self.I.throw(StopIteration)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__next__")
            if m is not None:
                return self.I.call(Bound(m, v), [], {})
        if isinstance(v, (VList, VDict, VSet, tuple, str)):
            self.I.throw(TypeError, "object is not an iterator")
        return SV(mk("next", to_term(v), self.I.fresh("nx")), None)

    def b_sorted(self, a, k):
        I = self.I
        v = a[0]
        key, rev = k.get("key"), k.get("reverse", False)
        if isinstance(v, SV) and self.conc_len(v) is None:
            return self.call_numpy("numpy.sort", [v], {})
        xs = list(I.iterate(v))
        ks = [I.call(key, [x], {}) for x in xs] if key is not None else xs
        try:
            kk = [key_of(x) if conc(x) or isinstance(x, tuple) else x for x in ks]
            if all(conc(x) or isinstance(x, tuple) and all(conc(y) for y in x) for x in ks):
                order = sorted(range(len(xs)), key=lambda i: kk[i], reverse=bool(I.truth(rev)))
                return VList([xs[i] for i in order])
            pre = [x[0] for x in ks if isinstance(x, tuple) and x and conc(x[0])]
            if len(pre) == len(ks) and len({key_of(x) for x in pre}) == len(pre):
                # the first components differ pairwise: they decide
                order = sorted(range(len(xs)), key=lambda i: key_of(pre[i]), reverse=bool(I.truth(rev)))
                return VList([xs[i] for i in order])
        except TypeError as ex:
            I.throw(TypeError, str(ex))
        # unknown data order: insertion sort on atoms keeps the elements
        r = VList(xs)
        I.event("sorted", key=[to_term(x) for x in ks], rev=rev, n=len(xs))
        return r

    def b_reversed(self, a, k):
        if isinstance(a[0], SV) and self.conc_len(a[0]) is None:
            return self.getitem(a[0], slice(None, None, -1))
        return VIter(list(self.I.iterate(a[0]))[::-1])

    def b_map(self, a, k):
        its = [self.I.iter2(x) for x in a[1:]]
        return VIter([self.I.call(a[0], list(xs), {}) for xs in zip(*[i for i, _ in its])])

    def b_filter(self, a, k):
        out = []
        for x in self.I.iterate(a[1]):
            if self.I.truth(x if a[0] is None else self.I.call(a[0], [x], {})):
                out.append(x)
        return VIter(out)

    def b_print(self, a, k):
        f = k.get("file")
        if isinstance(f, ExtObj) and f.kind == "file":
            sep, end = k.get("sep", " "), k.get("end", "\n")
            for i, x in enumerate(a):
                if i:
                    self.ext_event(f, "write", [sep], {}, None)
                self.ext_event(f, "write", [x], {}, None)
            self.ext_event(f, "write", [end], {}, None)
            return None
        self.I.event("log", name="print", args=a)

    def b_round(self, a, k):
        v = a[0]
        nd = a[1] if len(a) > 1 else k.get("ndigits")
        if isinstance(v, (int, float)) and (nd is None or isinstance(nd, int)):
            return round(v, nd) if nd is not None else round(v)
        if v is None:
            self.I.throw(TypeError, "type NoneType doesn't define __round__ method")
        w = NOWIT
        if isinstance(v, SV) and v.wit is not NOWIT and (nd is None or isinstance(nd, int)):
            w = round(v.wit, nd)
        return SV(mk("call", "round", (("a", to_term(v)), ("decimals", to_term(nd)))), "scalar", wit=w)

    def b_chr(self, a, k):
        n = self.ival(a[0])
        return chr(n) if n is not None else SV(mk("call", "chr", (("0", to_term(a[0])),)), "str")

    def b_ord(self, a, k):
        return ord(a[0]) if isinstance(a[0], str) else SV(mk("call", "ord", (("0", to_term(a[0])),)), "scalar")

    def repr_(self, v):
        from interp import deepconc, Unsupported

        try:
            return repr(deepconc(v))
        except Unsupported:
            return SV(mk("call", "repr", (("0", to_term(v)),)), "str")

    def b_repr(self, a, k):
        return self.repr_(a[0])

    def b_format(self, a, k):
        return self.I.fmt(a[0], a[1] if len(a) > 1 else "")

    def b_id(self, a, k):
        return SV(mk("sym", f"id{id(a[0])}"), "scalar", wit=id(a[0]))

    def b_hash(self, a, k):
        self.I.event("ambient", path="hash")
        return SV(mk("call", "hash", (("0", to_term(a[0])),)), "scalar")

    def b_callable(self, a, k):
        return isinstance(a[0], (Func, Bound, Native, Cls, Ext, ExtMeth))

    def b_divmod(self, a, k):
        return (self.I.binop("//", a[0], a[1]), self.I.binop("%", a[0], a[1]))

    def b_pow(self, a, k):
        return self.I.binop("**", a[0], a[1])

    def b_slice(self, a, k):
        return slice(*a)

    def b_super(self, a, k):
        from interp import SuperObj

        return SuperObj(a[0], a[1])

    # ------------------------------------------------------------------ files
    def new_path(self, *parts):
        return ExtObj("Path", self.I.fresh("Path"), {"parts": parts}, term=mk("path", tuple(to_term(p) for p in parts)))

    def b_open(self, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        f = ExtObj("file", self.I.fresh("file"), {"path": a[0], "mode": mode})
        self.I.event("open", path=a[0], mode=mode, file=f)
        return f

    # ------------------------------------------------------------------ copies
    def copy_(self, v, deep=False):
        I = self.I
        if isinstance(v, VList):
            return VList([self.copy_(x, True) for x in v.items] if deep else v.items, kind=v.kind)
        if isinstance(v, VDict):
            return VDict([(k, self.copy_(x, True) if deep else x) for k, x in v.items()])
        if isinstance(v, VSet):
            return VSet(list(v.d.values()))
        if isinstance(v, VFrame):
            return self.frame_copy(v)
        if isinstance(v, tuple):
            return tuple(self.copy_(x, True) for x in v) if deep else v
        if isinstance(v, SV):
            return SV(v.term, v.kind, v.wit, None, None, v.length, v.nd)
        if isinstance(v, Inst):
            o = Inst(v.cls, v.label)
            memo = (lambda x: self.copy_(x, True)) if deep else (lambda x: x)
            o.f = {k: memo(x) for k, x in v.f.items()}
            o.priv = {k: memo(x) for k, x in v.priv.items()}
            o.fields_set = set(v.fields_set)
            return o
        return v

    # ------------------------------------------------------------------ attributes of non-instances
    def attr(self, o, name):
        I = self.I
        if isinstance(o, SV):
            return self.sv_attr(o, name)
        if isinstance(o, (VFrame, VRow)):
            return self.frame_attr(o, name)
        if isinstance(o, ExtObj):
            return self.ext_getattr(o, name)
        if isinstance(o, ExtMeth):
            return self.ext_getattr(self.child(o), name)
        if isinstance(o, VGrid):
            return self.grid_attr(o, name)
        if isinstance(o, Deco):
            if name in ("setter", "getter", "deleter"):
                def setter(a, k, o=o):
                    return Deco("property", o.func, setter=a[0])
                return Native(name, setter)
            return I.unk("deco attr")
        if isinstance(o, Native):
            if o.name in ("dict", "list", "str", "set", "tuple"):
                return Native(f"{o.name}.{name}", lambda a, k: self.pymeth(a[0], name, a[1:], k) if name != "fromkeys" else VDict([(x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])]))
            return I.unk("native attr")
        if isinstance(o, (Func, Bound)):
            f = o.func if isinstance(o, Bound) else o
            if name in ("__name__", "__qualname__"):
                return f.name
            if name == "__doc__":
                return None
            if name in getattr(f, "attrs", {}):
                return f.attrs[name]
            if name == "cache_clear":
                return Native("cache_clear", lambda a, k: I.memo.clear())
            if name == "__func__":
                return f
            I.throw(AttributeError, name)
        if isinstance(o, (VList, VDict, VSet, str, tuple, VIter, bytes)):
            if isinstance(o, VList) and o.kind in ("index", "axrow", "index-array"):
                r = self.index_attr(o, name)
                if r is not NotImplemented:
                    return r
            if name == "__len__":
                return Native("len", lambda a, k: self.b_len([o], {}))
            if not self.has_pymeth(o, name):
                I.throw(AttributeError, f"{self.pytype(o)} object has no attribute {name}")
            return Native(f"{self.pytype(o)}.{name}", lambda a, k: self.pymeth(o, name, a, k))
        if isinstance(o, bool) or isinstance(o, int):
            if name in ("real", "numerator"):
                return o
            if name in ("bit_length", "as_integer_ratio", "conjugate", "__class__", "is_integer"):
                return Native(name, lambda a, k: getattr(o, name)(*a))
            I.throw(AttributeError, f"int object has no attribute {name}")
        if isinstance(o, float):
            if name == "real":
                return o
            if name in ("is_integer",):
                return Native(name, lambda a, k: o.is_integer())
            if isinstance(o, NPF) and name in ("item", "round", "astype", "max", "min", "sum"):
                return Native(name, lambda a, k: o)
            I.throw(AttributeError, f"float object has no attribute {name}")
        if o is None:
            I.throw(AttributeError, f"NoneType object has no attribute {name}")
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            return I.unk("type attr")
        if isinstance(o, range):
            return I.unk("range attr")
        return I.unk(f"attr {type(o).__name__}.{name}")

    def pytype(self, o):
        return {VList: "list", VDict: "dict", VSet: "set", VIter: "iterator"}.get(type(o), type(o).__name__)

    def has_pymeth(self, o, name):
        ty = {VList: list, VDict: dict, VSet: set, str: str, tuple: tuple, bytes: bytes}.get(type(o))
        if ty is None:
            return name in ("__next__", "send", "close", "__iter__")
        return hasattr(ty, name)

    def pymeth(self, o, name, a, k):
        I = self.I
        if isinstance(o, str):
            return self.strmeth(o, name, a, k)
        if isinstance(o, SV):
            return I.call(I.getattr(o, name), a, k)
        if isinstance(o, VList):
            if name in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"):
                I.mutate(o, name)
            if name == "append":
                o.items.append(a[0])
                return None
            if name == "extend":
                o.items.extend(list(I.iterate(a[0])))
                return None
            if name == "insert":
                o.items.insert(self.ival(a[0]) or 0, a[1])
                return None
            if name == "pop":
                i = self.ival(a[0]) if a else -1
                try:
                    return o.items.pop(i)
                except IndexError:
                    I.throw(IndexError, "pop from empty list")
            if name == "remove":
                for i, x in enumerate(o.items):
                    if I.truth(I.compare("==", x, a[0])):
                        del o.items[i]
                        return None
                I.throw(ValueError, "list.remove(x): x not in list")
            if name == "clear":
                o.items.clear()
                return None
            if name == "sort":
                o.items[:] = self.b_sorted([VList(o.items)], k).items
                return None
            if name == "reverse":
                o.items.reverse()
                return None
            if name == "copy":
                return VList(o.items, kind=o.kind)
            if name in ("index", "count"):
                n = 0
                for i, x in enumerate(o.items):
                    if I.truth(I.compare("==", x, a[0])):
                        if name == "index":
                            return i
                        n += 1
                if name == "index":
                    I.throw(ValueError, "not in list")
                return n
        if isinstance(o, tuple):
            return self.pymeth(VList(o), name, a, k)
        if isinstance(o, VDict):
            if name in ("update", "pop", "setdefault", "clear", "popitem"):
                if not (name == "setdefault" and o.has(a[0])):
                    I.mutate(o, name)
            if name == "get":
                return o.get(a[0]) if o.has(a[0]) else (a[1] if len(a) > 1 else k.get("default"))
            if name == "items":
                return VList([(kk, v) for kk, v in o.items()])
            if name == "keys":
                return VList(o.keys())
            if name == "values":
                return VList(o.values())
            if name == "copy":
                return VDict(o.items())
            if name == "update":
                src = self.b_dict(list(a), k)
                for kk, v in src.items():
                    o.set(kk, v)
                return None
            if name == "pop":
                if o.has(a[0]):
                    return o.d.pop(key_of(a[0]))[1]
                if len(a) > 1:
                    return a[1]
                I.throw(KeyError, a[0])
            if name == "setdefault":
                if not o.has(a[0]):
                    o.set(a[0], a[1] if len(a) > 1 else None)
                return o.get(a[0])
            if name == "clear":
                o.d.clear()
                return None
            if name == "popitem":
                if not o.d:
                    I.throw(KeyError, "popitem(): dictionary is empty")
                kk = list(o.d)[-1]
                return o.d.pop(kk)
            if name == "fromkeys":
                return VDict([(x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])])
        if isinstance(o, VSet):
            if name in ("add", "discard", "remove", "update", "pop", "clear"):
                I.mutate(o, name)
            if name == "add":
                o.d.setdefault(key_of(a[0]), a[0])
                return None
            if name in ("discard", "remove"):
                if key_of(a[0]) in o.d:
                    del o.d[key_of(a[0])]
                elif name == "remove":
                    I.throw(KeyError, a[0])
                return None
            if name == "update":
                for s in a:
                    for x in I.iterate(s):
                        o.d.setdefault(key_of(x), x)
                return None
            if name == "pop":
                I.event("set-iter", n=len(o.d))
                kk = list(o.d)[0 if I.set_order > 0 else -1]
                return o.d.pop(kk)
            if name == "clear":
                o.d.clear()
                return None
            if name == "copy":
                return VSet(list(o.d.values()))
            if name in ("union", "intersection", "difference", "symmetric_difference"):
                op = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name]
                r = o
                for s in a:
                    r = I.binop(op, r, s if isinstance(s, VSet) else VSet(list(I.iterate(s))))
                return VSet(list(r.d.values()))
            if name in ("issubset", "issuperset", "isdisjoint"):
                s = set(a[0].d) if isinstance(a[0], VSet) else {key_of(x) for x in I.iterate(a[0])}
                return {"issubset": set(o.d) <= s, "issuperset": set(o.d) >= s, "isdisjoint": not (set(o.d) & s)}[name]
        if isinstance(o, VIter):
            if name == "__next__":
                return self.b_next([o], {})
            return o
        return I.unk(f"method {self.pytype(o)}.{name}")

    def strmeth(self, o, name, a, k):
        I = self.I
        if name == "format":
            return I.str_format(o, a, k)
        if name == "join":
            xs = list(I.iterate(a[0]))
            out = []
            for i, x in enumerate(xs):
                if i:
                    out.append(o)
                if isinstance(x, ExtMeth):
                    x = self.force(x)
                if isinstance(x, (str,)) or isinstance(x, SV):
                    out.append(x)
                else:
                    I.throw(TypeError, f"sequence item {i}: expected str instance, {type(x).__name__} found")
            return I.cat(out)
        recv_w = o.wit if isinstance(o, SV) else o
        ws = [self.wit(x) if not isinstance(x, tuple) else x for x in a]
        symbolic = isinstance(o, SV) or any(isinstance(x, SV) for x in a)
        if not symbolic:
            if any(isinstance(x, (VList, VDict)) for x in a):
                return I.unk("str method")
            try:
                r = getattr(o, name)(*a, **{kk: v for kk, v in k.items()})
            except (TypeError, ValueError, AttributeError, IndexError) as ex:
                I.throw(type(ex), str(ex))
            return VList(r) if isinstance(r, list) else r
        w = NOWIT
        if recv_w is not NOWIT and all(x is not NOWIT for x in ws):
            try:
                w = getattr(recv_w, name)(*ws)
            except (TypeError, ValueError, AttributeError) as ex:
                I.throw(type(ex), str(ex))
        if isinstance(w, list):
            return VList([SV(mk("item", mk("smeth", name, to_term(o), tuple(to_term(x) for x in a)), c(i)), "str", wit=x) for i, x in enumerate(w)])
        if w is not NOWIT and recv_w == w and name in ("strip", "lstrip", "rstrip", "replace", "lower", "upper", "title", "removeprefix", "removesuffix"):
            if isinstance(o, SV):
                return o
        if isinstance(o, SV) and o.term.op == "cat" and name in ("strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "removeprefix", "removesuffix"):
            r = self.cat_meth(o, name, a)
            if r is not None:
                return r
        kind = "bool" if name.startswith(("is", "startswith", "endswith")) else ("scalar" if name in ("find", "count", "index") else "str")
        return SV(mk("smeth", name, to_term(o), tuple(to_term(x) for x in a)), kind, wit=w)

    def cat_meth(self, o, name, a):
        parts = list(o.term.a[0])
        arg = a[0] if a else None
        if name == "replace" and isinstance(a[0], str) and isinstance(a[1], str):
            return self.I.cat([p.replace(a[0], a[1]) if isinstance(p, str) else SV(p, "str") for p in parts])
        if name in ("strip", "lstrip") and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(arg)
        if name in ("strip", "rstrip") and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(arg)
        if name in ("strip", "lstrip", "rstrip"):
            return self.I.cat([p if isinstance(p, str) else SV(p, "str") for p in parts])
        if name == "startswith" and isinstance(parts[0], str) and isinstance(arg, str) and len(parts[0]) >= len(arg):
            return parts[0].startswith(arg)
        if name == "endswith" and isinstance(parts[-1], str) and isinstance(arg, str) and len(parts[-1]) >= len(arg):
            return parts[-1].endswith(arg)
        return None

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        I = self.I
        if isinstance(k, ExtMeth):
            k = self.force(k)
        if isinstance(o, VDict):
            if o.has(k):
                return o.get(k)
            fac = getattr(o, "factory", None)
            if fac is not None:
                v = I.call(fac, [], {})
                o.set(k, v)
                return v
            I.throw(KeyError, k)
        if isinstance(o, (VList, tuple)):
            items = o.items if isinstance(o, VList) else list(o)
            if isinstance(o, VList) and o.kind in ("index", "axrow"):
                if isinstance(k, tuple) and len(k) == 1:
                    k = k[0]
            if isinstance(k, slice):
                s = [None if x is None else self.ival(x) for x in (k.start, k.stop, k.step)]
                if any(x is None and y is not None for x, y in zip(s, (k.start, k.stop, k.step))):
                    return I.unk("list slice")
                r = items[slice(*s)]
                return VList(r, kind=o.kind) if isinstance(o, VList) else tuple(r)
            i = self.ival(k)
            if i is None:
                if isinstance(k, (str, float)) or k is None or isinstance(k, (VList, tuple, VDict)):
                    if isinstance(o, VList) and o.kind in ("index", "axrow") and isinstance(k, VList):
                        return VList([items[self.ival(x)] for x in k.items], kind=o.kind)
                    I.throw(TypeError, "list indices must be integers or slices")
                return SV(mk("item", to_term(o), to_term(k)), None)
            try:
                return items[i]
            except IndexError:
                I.throw(IndexError, "list index out of range")
        if isinstance(o, str):
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return o[k]
            i = self.ival(k)
            if i is not None:
                try:
                    return o[i]
                except IndexError:
                    I.throw(IndexError, "string index out of range")
            return SV(mk("item", to_term(o), to_term(k)), "str")
        if isinstance(o, range):
            i = self.ival(k)
            if i is not None:
                try:
                    return o[i]
                except IndexError:
                    I.throw(IndexError, "range index out of range")
            return o[k] if isinstance(k, slice) else I.unk("range item")
        if isinstance(o, (VFrame, VRow)):
            return self.frame_getitem(o, k)
        if isinstance(o, VGrid):
            return self.grid_getitem(o, k)
        if isinstance(o, SV):
            return self.sv_getitem(o, k)
        if isinstance(o, Cls):
            if o.members is not None and isinstance(k, str):
                if k in o.members:
                    return o.members[k]
                I.throw(KeyError, k)
            return o
        if isinstance(o, (Ext, Native)):
            return ExtObj("generic", repr(o), {"base": o, "args": k})
        if isinstance(o, (ExtObj, ExtMeth)):
            return self.ext_getitem(o, k)
        if isinstance(o, Inst):
            if getattr(o, "meta", None) == "namedtuple":
                return self.getitem(tuple(o.f.values()), k)
            m, _ = o.cls.lookup("__getitem__")
            if m is not None:
                return I.call(Bound(m, o), [k], {})
            I.throw(TypeError, f"{o.cls.name} object is not subscriptable")
        if o is None or isinstance(o, (int, float)):
            I.throw(TypeError, f"{type(o).__name__} object is not subscriptable")
        if isinstance(o, VSet):
            I.throw(TypeError, "set object is not subscriptable")
        if isinstance(o, VIter):
            I.throw(TypeError, "iterator is not subscriptable")
        return I.unk("getitem")

    def setitem(self, o, k, v):
        I = self.I
        if isinstance(o, VDict):
            I.mutate(o, "[]=")
            o.set(k, v)
        elif isinstance(o, VList):
            I.mutate(o, "[]=")
            if isinstance(k, slice):
                o.items[k] = list(I.iterate(v))
                return
            i = self.ival(k)
            if i is None:
                I.undecided.append(("list setitem", I.site()))
                return
            try:
                o.items[i] = v
            except IndexError:
                I.throw(IndexError, "list assignment index out of range")
        elif isinstance(o, (VFrame, VRow)):
            self.frame_setitem(o, k, v)
        elif isinstance(o, SV):
            self.sv_setitem(o, k, v)
        elif isinstance(o, (ExtObj, ExtMeth)):
            self.ext_setitem(o, k, v)
        elif isinstance(o, Inst):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                I.call(Bound(m, o), [k, v], {})
            else:
                I.throw(TypeError, "object does not support item assignment")
        elif isinstance(o, (tuple, str)) or o is None:
            I.throw(TypeError, "object does not support item assignment")
        else:
            I.undecided.append(("setitem", I.site()))

    def setattr(self, o, name, v):
        I = self.I
        if isinstance(o, (ExtObj, ExtMeth)):
            self.ext_setattr(o, name, v)
        elif isinstance(o, VFrame):
            if name == "columns":
                I.mutate(o, ".columns=")
                names = list(I.iterate(v))
                o.cols = {key_of(n): x for n, x in zip(names, o.cols.values())}
            elif name == "index":
                I.mutate(o, ".index=")
                o.index = "any"
            else:
                I.mutate(o, f".{name}=")
        elif isinstance(o, SV):
            if name in ("name",):
                return
            I.mutate(o, f".{name}=")
        elif o is None or isinstance(o, (int, float, str)):
            I.throw(AttributeError, f"{type(o).__name__} object has no attribute {name}")
        else:
            I.undecided.append(("setattr", I.site()))
