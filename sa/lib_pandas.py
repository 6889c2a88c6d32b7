"""Tables: concrete column names, abstract columns."""
from __future__ import annotations

from terms import mk, c
from values import *  # noqa: F403
from values import NOWIT, SV, VFrame, VRow


def positions(t):
    """is the term a list of row numbers (counting from 0), whatever the table's labels are?"""
    while t.op in ("item", "mutated", "rows") or t.op == "call" and t.a[1] and t.a[0].split(".")[-1] in ("sort", "asarray", "array", "astype", "flip", "unique", "copy", "int"):
        t = t.a[0] if t.op != "call" else dict(t.a[1]).get("a", t.a[1][0][1])
        if not hasattr(t, "op"):
            return False
    return t.op in ("range", "arange") or t.op == "call" and t.a[0].split(".")[-1] in ("arange", "argsort", "choice", "integers", "randint", "permutation", "searchsorted", "nonzero", "flatnonzero", "argwhere")


class PandasMixin:
    # ------------------------------------------------------------------ helpers
    def nrows_of(self, v):
        if isinstance(v, SV):
            return v.length
        if isinstance(v, VFrame):
            return v.nrows
        if isinstance(v, VList):
            return len(v.items)
        return None

    def as_series(self, v, n=None):
        if isinstance(v, SV):
            if v.kind in ("array", "series"):
                return SV(v.term, "series", base=v if v.kind == "array" else None, length=v.length if v.length is not None else n, nd=1)
            return SV(mk("bcast", v.term), "series", length=n, nd=1)
        if isinstance(v, (VList, tuple)):
            a = self.as_array(v, False)
            if isinstance(a, VList):
                return SV(to_term(a), "series", length=len(a.items), nd=1)
            return SV(a.term, "series", length=a.length, nd=1)
        return SV(mk("bcast", to_term(v)), "series", length=n, nd=1)

    def call_pandas(self, path, args, kw):
        I = self.I
        name = path.split(".")[-1]
        if name == "DataFrame":
            return self.new_frame(args[0] if args else kw.get("data"), args, kw)
        if name == "from_dict":
            d = args[0]
            if kw.get("orient", "columns") == "index":
                return self.frame_T(self.new_frame(d, [d], {}))
            return self.new_frame(d, [d], {})
        if name == "Series":
            v = args[0] if args else kw.get("data")
            if isinstance(v, VDict):
                return VFrame({k: x for k, x in v.items()}, 1, origin="series")
            r = self.as_series(v)
            if isinstance(v, SV) and v.kind == "array" and len(args) < 2 and "index" not in kw:
                r.lab = "range"
            elif isinstance(v, SV) and v.kind == "series":
                r.lab = v.lab
            return r
        if name == "concat":
            xs = list(I.iterate(args[0]))
            ax = kw.get("axis", args[1] if len(args) > 1 else 0)
            if ax in (1, "columns"):
                cols = {}
                n = None
                for x in xs:
                    if isinstance(x, VFrame):
                        cols.update(x.cols)
                        n = x.nrows
                    elif isinstance(x, SV):
                        cols[self.sv_attr(x, "name")] = x
                        n = x.length
                return VFrame(cols, n, index="any")
            names = []
            for x in xs:
                if isinstance(x, VFrame):
                    names += [k for k in x.cols if k not in names]
            n = self.I.unk("rows", "scalar") if not xs else SV(mk("sym", "concat-rows", I.fresh("n")), "scalar")
            cols = {}
            for k in names:
                cols[k] = SV(mk("concat", tuple(to_term(x.cols[k]) if k in x.cols else c("nan") for x in xs)), "series", length=n, nd=1)
            return VFrame(cols, n, index="range" if kw.get("ignore_index") is True else "dup")
        if name == "read_csv":
            return I.unk("read_csv")
        if name in ("isna", "isnull"):
            return self.np("isnan", *args)
        return I.unk("pandas." + name)

    def new_frame(self, data, args, kw):
        I = self.I
        columns = kw.get("columns", args[2] if len(args) > 2 else None)
        index = kw.get("index", args[1] if len(args) > 1 else None)
        idx = "range" if index is None else "any"
        names = None if columns is None else list(I.iterate(columns))
        names = None if names is None else [n.wit if isinstance(n, SV) and n.wit is not NOWIT else n for n in names]
        if isinstance(data, VFrame):
            if names is not None and data.origin == "matrix":
                return VFrame(dict(zip(names, data.cols.values())), data.nrows, idx)
            if kw.get("copy") is True:
                return self.frame_copy(data)
            f = VFrame({k: SV(v.term, v.kind, base=v, length=v.length, nd=v.nd) if isinstance(v, SV) else v for k, v in data.cols.items()},
                       data.nrows, data.index, labels=data.labels)
            f.alias = data
            return f
        if isinstance(data, VDict):
            vals = data.values()
            if vals and all(isinstance(v, VDict) for v in vals):
                # mapping column -> {row label: value}
                labels = []
                for v in vals:
                    labels += [k for k in v.keys() if k not in labels]
                cols = {}
                for k, v in data.items():
                    cols[k] = VList([v.get(l) if v.has(l) else float("nan") for l in labels], kind="column")
                return VFrame(cols, len(labels), "any", labels=labels)
            n = None
            for v in vals:
                if isinstance(v, (SV, VList)) and self.nrows_of(v) is not None:
                    n = self.nrows_of(v)
                    break
            if n is None and isinstance(index, (VList, tuple)):
                n = len(list(I.iterate(index)))
            if n is None:
                vs = [v for v in vals if isinstance(v, SV) and v.kind in ("array", "series")]
                n = SV(mk("len", to_term(vs[0])), "scalar", nd=0) if vs else None
            cols = {}
            for k, v in data.items():
                if isinstance(v, VList) and v.kind == "list" and any(isinstance(x, (str, VList, tuple)) or isinstance(x, SV) and x.kind == "str" for x in v.items):
                    cols[k] = VList(v.items, kind="column")
                    continue
                s = self.as_series(v, n)
                s.base = None
                cols[k] = SV(s.term, "series", length=s.length, nd=1)
            labels = list(I.iterate(index)) if isinstance(index, (VList, tuple)) else None
            return VFrame(cols, n, idx, labels=labels)
        if isinstance(data, (VList, tuple)):
            items = data.items if isinstance(data, VList) else list(data)
            if items and all(isinstance(x, VDict) for x in items):
                cn = []
                for x in items:
                    cn += [k for k in x.keys() if k not in cn]
                return VFrame({k: VList([x.get(k) if x.has(k) else float("nan") for x in items], kind="column") for k in cn}, len(items), idx)
            if items and all(isinstance(x, (VList, tuple)) for x in items):
                rows = [list(I.iterate(x)) for x in items]
                w = len(rows[0])
                names = names or list(range(w))
                return VFrame({k: VList([r[i] for r in rows], kind="column") for i, k in enumerate(names)}, len(rows), idx)
            data = self.as_array(data, False)
        if isinstance(data, SV):
            k = self.mat_cols(data)
            if names is not None:
                if k is not None and k != len(names):
                    I.throw(ValueError, "Shape of passed values")
                cols = {}
                for j, nm in enumerate(names):
                    s = self.getitem(data, (slice(None), j))
                    cols[nm] = SV(s.term, "series", length=data.length, nd=1, base=data)
                f = VFrame(cols, data.length, idx)
                for s in f.cols.values():
                    s.base = data
                return f
            if k is not None:
                return VFrame({j: SV(self.getitem(data, (slice(None), j)).term, "series", length=data.length, nd=1) for j in range(k)}, data.length, idx)
        if data is None:
            return VFrame({}, 0, idx)
        return I.unk("DataFrame")

    def frame_T(self, f):
        if f.labels is not None:
            names = list(f.cols)
            return VFrame({l: VList([self.col_at(f, n, i) for n in names], kind="column") for i, l in enumerate(f.labels)}, len(names), "any", labels=names)
        return self.I.unk("frame T")

    def col_at(self, f, name, i):
        col = f.cols[name]
        if isinstance(col, VList):
            return col.items[i]
        return self.getitem(col, i)

    def frame_copy(self, f, index=None):
        g = VFrame({k: (SV(v.term, v.kind, length=v.length, nd=v.nd) if isinstance(v, SV) else VList(v.items, kind=v.kind)) for k, v in f.cols.items()},
                   f.nrows, f.index if index is None else index, labels=f.labels, origin=f.origin)
        return g

    def frame_sub(self, f, names):
        cols = {}
        for n in names:
            kk = key_of(n)
            if kk not in f.cols:
                self.I.throw(KeyError, n)
            v = f.cols[kk]
            cols[kk] = SV(v.term, v.kind, length=v.length, nd=v.nd) if isinstance(v, SV) else VList(v.items, kind=v.kind)
        return VFrame(cols, f.nrows, f.index, labels=f.labels)

    def frame_numpy(self, f, view=True):
        t = to_term(f)
        return SV(t, "array", base=f if view else None, length=f.nrows, nd=2)

    def frame_part(self, f, i, k):
        cols = {}
        n = None
        for name, v in f.cols.items():
            s = SV(mk("part", to_term(v), i, k, c(0)), "series", nd=1)
            s.length = SV(mk("partrows", to_term(f.nrows) if f.nrows is not None else c(None), i, k), "scalar", nd=0)
            n = s.length
            cols[name] = s
        g = VFrame(cols, n, "sub")
        return g

    # ------------------------------------------------------------------ elementwise
    def frame_binop(self, op, a, b):
        I = self.I
        if isinstance(a, VFrame) and isinstance(b, VFrame):
            return VFrame({k: self.as_series(I.binop(op, v, b.cols[k])) for k, v in a.cols.items() if k in b.cols}, a.nrows, a.index)
        f, o, left = (a, b, True) if isinstance(a, VFrame) else (b, a, False)
        n = len(f.cols)

        def pick(j, k):
            if isinstance(o, VRow):
                return o.cols.get(k, float("nan"))
            if isinstance(o, SV) and o.kind in ("array", "series") and o.nd == 1:
                if o.kind == "series" and o.term.op == "fred":
                    return SV(o.term.a[1][j], "scalar", nd=0) if j < len(o.term.a[1]) else I.unk("bcast")
                return self.getitem(o, j)
            if isinstance(o, SV) and o.nd == 2:
                return self.getitem(o, (slice(None), j))
            if isinstance(o, (VList, tuple)):
                return I.getitem(o, j)
            return o

        cols = {}
        for j, (k, v) in enumerate(f.cols.items()):
            x = pick(j, k)
            r = I.binop(op, v, x) if left else I.binop(op, x, v)
            cols[k] = SV(to_term(r), "series", length=f.nrows, nd=1)
        return VFrame(cols, f.nrows, f.index)

    def frame_cmp(self, op, a, b):
        I = self.I
        if op == "==" and not (isinstance(a, VFrame) and isinstance(b, (VFrame, SV, int, float))):
            return False
        f, o = (a, b) if isinstance(a, VFrame) else (b, a)
        cols = {}
        for k, v in f.cols.items():
            x = o.cols[k] if isinstance(o, VFrame) else o
            cols[k] = SV(to_term(I.compare(op, v, x) if isinstance(a, VFrame) else I.compare(op, x, v)), "series", length=f.nrows, nd=1)
        return VFrame(cols, f.nrows, f.index)

    def frame_reduce(self, f, name, axis, kw):
        if axis in (1, "columns"):
            return SV(mk("call", "numpy." + name, (("a", to_term(f)), ("axis", c(1)))), "series", length=f.nrows, nd=1)
        if axis is None and name in ("min", "max", "sum", "mean", "any", "all") and kw.get("np"):
            return self.np(name, self.frame_numpy(f))
        vals = [self.arrmeth(v, name, [], {}) if isinstance(v, SV) else self.np(name, v) for v in f.cols.values()]
        return VRow(dict(zip(f.cols, vals)))

    # ------------------------------------------------------------------ attributes
    def index_attr(self, o, name):
        I = self.I
        if name in ("to_list", "tolist"):
            return Native("index.tolist", lambda a, k: VList(o.items))
        if name in ("values", "array"):
            return VList(o.items, kind=o.kind)
        if name == "to_numpy":
            return Native("to_numpy", lambda a, k: VList(o.items, kind=o.kind))
        if name in ("size",):
            return len(o.items)
        if name in ("shape",):
            return (len(o.items),)
        if name == "ndim":
            return 1
        if name in ("copy",):
            return Native("copy", lambda a, k: VList(o.items, kind=o.kind))
        if name in ("flatten", "ravel", "squeeze"):
            return Native(name, lambda a, k: VList(o.items, kind=o.kind))
        if name == "flat":
            return VIter(o.items)
        if name == "empty":
            return not o.items
        if name == "get_loc":
            def gl(a, k):
                for i, x in enumerate(o.items):
                    if key_of(x) == key_of(a[0]):
                        return i
                I.throw(KeyError, a[0])
            return Native(name, gl)
        if name == "isin":
            return Native(name, lambda a, k: VList([I.contains(a[0], x) for x in o.items], kind="boolindex"))
        if name == "unique":
            return Native(name, lambda a, k: VList(list({key_of(x): x for x in o.items}.values()), kind=o.kind))
        if name == "is_unique":
            return len({key_of(x) for x in o.items}) == len(o.items)
        if name == "difference":
            return Native(name, lambda a, k: VList(sorted([x for x in o.items if not I.truth(I.contains(a[0], x))]), kind=o.kind))
        if name == "drop":
            def drop(a, k):
                rm = a[0] if isinstance(a[0], (VList, tuple, VSet)) else VList([a[0]])
                return VList([x for x in o.items if not I.truth(I.contains(rm, x))], kind=o.kind)
            return Native(name, drop)
        if name == "reshape":
            return Native(name, lambda a, k: o)
        return NotImplemented

    def frame_attr(self, o, name):
        I = self.I
        if isinstance(o, VRow):
            return self.row_attr(o, name)
        if name in ("columns",):
            return VList(list(o.cols), kind="index")
        if name == "shape":
            return (o.nrows, len(o.cols))
        if name == "empty":
            n = o.nrows
            if not o.cols:
                return True
            if isinstance(n, SV):
                return I.compare("==", n, 0)
            return n == 0
        if name == "size":
            return I.binop("*", o.nrows, len(o.cols))
        if name == "ndim":
            return 2
        if name == "values":
            return self.frame_numpy(o, True)
        if name == "T":
            a = self.frame_numpy(o, True)
            return SV(mk("T", a.term), "array", base=o, nd=2, length=len(o.cols))
        if name == "index":
            if o.labels is not None:
                return VList(o.labels, kind="index")
            return SV(mk("index", o.index, to_term(o.nrows) if o.nrows is not None else c(None)), "array", length=o.nrows, nd=1)
        if name in ("loc", "iloc", "at", "iat"):
            return ExtObj("indexer", name, {"obj": o, "how": name.replace("at", "loc") if name != "iat" else "iloc"})
        if name in o.cols and not hasattr(PandasMixin, "fm_" + name):
            return o.cols[name]
        m = getattr(self, "fm_" + name, None)
        own = ("drop", "rename", "reset_index", "sort_values")

        def inpl(a, k, f):
            if k.get("inplace") is not True or name in own:
                return f(a, k)
            r = f(a, {q: v for q, v in k.items() if q != "inplace"})
            I.mutate(o, name + "(inplace)")
            if isinstance(r, VFrame):
                o.cols, o.index, o.nrows, o.labels = r.cols, r.index, r.nrows, r.labels
            else:
                o.cols = {n: SV(mk("mutated", to_term(v), c(name)), "series", length=o.nrows, nd=1) for n, v in o.cols.items()}
            return None

        if m is not None and name not in own:
            return Native("DataFrame." + name, lambda a, k: inpl(a, k, lambda a, k: m(o, a, k)))
        if m is not None:
            return Native("DataFrame." + name, lambda a, k: m(o, a, k))
        if name in ("sum", "mean", "std", "var", "min", "max", "any", "all", "median", "prod"):
            def red(a, k):
                return self.frame_reduce(o, name, a[0] if a else k.get("axis", 0), k)
            return Native("DataFrame." + name, red)
        if name in ("add", "sub", "subtract", "mul", "multiply", "div", "divide", "truediv", "pow"):
            op = {"add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "div": "/", "divide": "/", "truediv": "/", "pow": "**"}[name]
            return Native("DataFrame." + name, lambda a, k: self.frame_binop(op, o, a[0]))
        if name in ("attrs", "dtypes"):
            return I.unk("frame." + name)
        return Native("DataFrame." + name, lambda a, k: inpl(a, k, lambda a, k: I.unk("DataFrame." + name)))

    def row_attr(self, o, name):
        I = self.I
        if name in ("index",):
            return VList(list(o.cols), kind="index")
        if name == "name":
            return o.name
        if name in ("values",):
            return self.as_array(o, True)
        if name == "to_numpy":
            return Native(name, lambda a, k: self.as_array(o, True))
        if name == "to_dict":
            return Native(name, lambda a, k: VDict(o.cols.items()))
        if name in ("tolist", "to_list"):
            return Native(name, lambda a, k: VList(list(o.cols.values())))
        if name == "items":
            return Native(name, lambda a, k: VList([(k_, v) for k_, v in o.cols.items()]))
        if name == "keys":
            return Native(name, lambda a, k: VList(list(o.cols), kind="index"))
        if name == "get":
            return Native(name, lambda a, k: o.cols.get(a[0], a[1] if len(a) > 1 else None))
        if name == "copy":
            return Native(name, lambda a, k: VRow(o.cols, o.name))
        if name in ("loc", "iloc", "at"):
            return ExtObj("indexer", name, {"obj": o, "how": name})
        if name == "drop":
            def drop(a, k):
                lab = a[0] if a else k.get("labels", k.get("index"))
                labs = [lab] if isinstance(lab, str) else list(I.iterate(lab))
                for l in labs:
                    if l not in o.cols and k.get("errors") != "ignore":
                        I.throw(KeyError, l)
                return VRow({q: v for q, v in o.cols.items() if q not in labs}, o.name)
            return Native(name, drop)
        if name == "reindex":
            return Native(name, lambda a, k: VRow({q: o.cols.get(q, float("nan")) for q in I.iterate(a[0])}, o.name))
        if name == "astype":
            return Native(name, lambda a, k: o)
        if name in o.cols:
            return o.cols[name]
        if name in ("sum", "min", "max", "mean"):
            return Native(name, lambda a, k: self.np(name, VList(list(o.cols.values()))))
        I.throw(AttributeError, name)

    # methods ------------------------------------------------------------
    def fm_to_numpy(self, o, a, k):
        return self.frame_numpy(o, k.get("copy") is not True)

    def fm_copy(self, o, a, k):
        if (a and a[0] is False) or k.get("deep") is False:
            f = VFrame({n: SV(v.term, v.kind, length=v.length, nd=v.nd) for n, v in o.cols.items()}, o.nrows, o.index, labels=o.labels)
            f.alias = o
            return f
        return self.frame_copy(o)

    def fm_keys(self, o, a, k):
        return VList(list(o.cols), kind="index")

    def fm_get(self, o, a, k):
        return o.cols.get(key_of(a[0]), a[1] if len(a) > 1 else k.get("default"))

    def fm_drop(self, o, a, k):
        I = self.I
        lab = k.get("columns")
        if lab is None:
            lab = a[0] if a else k.get("labels")
            ax = k.get("axis", a[1] if len(a) > 1 else 0)
            if ax not in (1, "columns"):
                return I.unk("drop rows")
        labs = [lab] if isinstance(lab, str) else [key_of(x) for x in I.iterate(lab)]
        for l in labs:
            if l not in o.cols and k.get("errors") != "ignore":
                I.throw(KeyError, l)
        if k.get("inplace") is True:
            I.mutate(o, "drop(inplace)")
            for l in labs:
                o.cols.pop(l, None)
            return None
        return self.frame_sub(o, [n for n in o.cols if n not in labs])

    def fm_pop(self, o, a, k):
        self.I.mutate(o, "pop()")
        if key_of(a[0]) not in o.cols:
            self.I.throw(KeyError, a[0])
        return o.cols.pop(key_of(a[0]))

    def fm_update(self, o, a, k):
        self.I.mutate(o, "update()")
        other = a[0] if a else k.get("other")
        for n in list(o.cols):
            o.cols[n] = SV(mk("call", "update", (("0", to_term(o.cols[n])), ("1", to_term(other)))), "series", length=o.nrows, nd=1)
        return None

    def fm_insert(self, o, a, k):
        self.I.mutate(o, "insert()")
        pos, name, v = a[:3]
        items = list(o.cols.items())
        items.insert(pos, (name, self.as_series(v, o.nrows)))
        o.cols = dict(items)

    def fm_assign(self, o, a, k):
        g = self.frame_copy(o)
        for n, v in k.items():
            if isinstance(v, (Func, Bound, Native)):
                v = self.I.call(v, [g], {})
            g.cols[n] = self.as_series(v, o.nrows)
        return g

    def fm_rename(self, o, a, k):
        m = k.get("columns", a[0] if a else None)
        if isinstance(m, VDict):
            cols = {(m.get(n) if m.has(n) else n): v for n, v in o.cols.items()}
        elif m is not None:
            cols = {self.I.call(m, [n], {}): v for n, v in o.cols.items()}
        else:
            cols = dict(o.cols)
        if k.get("inplace") is True:
            self.I.mutate(o, "rename(inplace)")
            o.cols = cols
            return None
        return VFrame({n: SV(v.term, v.kind, length=v.length, nd=v.nd) for n, v in cols.items()}, o.nrows, o.index, labels=o.labels)

    def fm_reset_index(self, o, a, k):
        if k.get("inplace") is True:
            self.I.mutate(o, "reset_index(inplace)")
            o.index = "range"
            return None
        if k.get("drop") is True:
            g = self.frame_copy(o, "range")
            g.labels = None
            return g
        if o.labels is not None:
            cols = {"index": VList(o.labels, kind="column")}
            cols.update(o.cols)
            return VFrame(cols, o.nrows, "range")
        cols = {"index": self.frame_attr(o, "index")}
        cols["index"] = self.as_series(cols["index"])
        cols.update(o.cols)
        return VFrame(cols, o.nrows, "range")

    def fm_set_index(self, o, a, k):
        col = o.cols.get(a[0])
        cols = {n: v for n, v in o.cols.items() if n != a[0]}
        return VFrame(cols, o.nrows, "any", labels=col.items if isinstance(col, VList) else None)

    def fm_transpose(self, o, a, k):
        return self.frame_attr(o, "T")

    def fm_iterrows(self, o, a, k):
        if isinstance(o.nrows, int) and o.nrows < 40:
            labels = o.labels if o.labels is not None else list(range(o.nrows))
            return VIter([(labels[i], VRow({n: self.col_at(o, n, i) for n in o.cols}, labels[i])) for i in range(o.nrows)])
        return VIter([(SV(mk("sym", "row-label", i), "scalar"), VRow({n: SV(mk("elem", to_term(v), i), "scalar", nd=0) for n, v in o.cols.items()})) for i in range(2)])

    def fm_itertuples(self, o, a, k):
        rows = [r for _, r in self.fm_iterrows(o, a, k).it]
        return VIter([tuple(r.cols.values()) for r in rows])

    def fm_items(self, o, a, k):
        return VList([(n, v) for n, v in o.cols.items()])

    def fm_to_dict(self, o, a, k):
        orient = a[0] if a else k.get("orient", "dict")
        if orient == "list":
            return VDict([(n, VList(list(self.I.iterate(v)))) for n, v in o.cols.items()])
        labels = o.labels
        if orient == "index" and labels is not None:
            return VDict([(l, VDict([(n, self.col_at(o, n, i)) for n in o.cols])) for i, l in enumerate(labels)])
        if labels is not None:
            return VDict([(n, VDict([(l, self.col_at(o, n, i)) for i, l in enumerate(labels)])) for n in o.cols])
        return VDict([(n, v) for n, v in o.cols.items()])

    def fm_sort_values(self, o, a, k):
        by = a[0] if a else k.get("by")
        asc = k.get("ascending", a[2] if len(a) > 2 else True)
        bys = [by] if isinstance(by, str) else list(self.I.iterate(by))
        for b in bys:
            if b not in o.cols:
                self.I.throw(KeyError, b)
        key = mk("list", tuple(to_term(o.cols[b]) for b in bys))
        cols = {n: SV(mk("sorted", to_term(v), key, to_term(asc)), "series", length=o.nrows, nd=1) for n, v in o.cols.items()}
        labels = None
        if o.labels is not None and k.get("ignore_index") is not True:
            lt = mk("sorted", mk("list", tuple(to_term(x) for x in o.labels)), key, to_term(asc))
            labels = [SV(mk("item", lt, i), "str") for i in range(len(o.labels))]
        if k.get("inplace") is True:
            self.I.mutate(o, "sort_values(inplace)")
            o.cols = cols
            o.index = "perm"
            o.labels = labels
            return None
        return VFrame(cols, o.nrows, "range" if k.get("ignore_index") is True else "perm", labels=labels)

    def fm_select_dtypes(self, o, a, k):
        return o

    def fm_dropna(self, o, a, k):
        return VFrame({n: SV(mk("call", "dropna", (("0", to_term(v)), ("1", to_term(o)))), "series", nd=1) for n, v in o.cols.items()}, None, "sub")

    def fm_isna(self, o, a, k):
        return VFrame({n: SV(self.np("isnan", v).term, "series", length=o.nrows, nd=1) for n, v in o.cols.items()}, o.nrows, o.index)

    fm_isnull = fm_isna

    def fm_corr(self, o, a, k):
        a = self.frame_numpy(o)
        return SV(mk("call", "numpy.corrcoef", (("m", mk("T", a.term)),)), "array", nd=2, length=len(o.cols))

    def fm_cov(self, o, a, k):
        a = self.frame_numpy(o)
        return SV(mk("call", "numpy.cov", (("m", mk("T", a.term)),)), "array", nd=2, length=len(o.cols))

    def fm_astype(self, o, a, k):
        return self.frame_copy(o)

    def fm_head(self, o, a, k):
        return self.frame_rows(o, slice(0, a[0] if a else 5))

    def fm_query(self, o, a, k):
        return self.I.unk("query")

    def fm_apply(self, o, a, k):
        ax = k.get("axis", a[1] if len(a) > 1 else 0)
        if ax in (0, "index"):
            cols = {n: self.I.call(a[0], [v], {}) for n, v in o.cols.items()}
            if all(isinstance(v, SV) and v.kind in ("series", "array") for v in cols.values()):
                return VFrame({n: self.as_series(v) for n, v in cols.items()}, o.nrows, o.index)
            return VRow(cols)
        return self.I.unk("apply rows")

    def fm_reindex(self, o, a, k):
        cols = k.get("columns")
        if cols is not None:
            return self.frame_sub(o, list(self.I.iterate(cols)))
        return self.I.unk("reindex")

    def fm_filter(self, o, a, k):
        items = k.get("items", a[0] if a else None)
        return self.frame_sub(o, [n for n in self.I.iterate(items) if key_of(n) in o.cols])

    def fm_equals(self, o, a, k):
        return SV(mk("cmp", "==", to_term(o), to_term(a[0])), "bool")

    def fm_memory_usage(self, o, a, k):
        return self.I.unk("memory")

    # ------------------------------------------------------------------ items
    def frame_rows(self, f, k):
        kt = to_term(k)
        cols = {}
        n = None
        if isinstance(k, SV) and (k.term.op in ("cmp", "not") or k.term.op == "bin"):
            n = SV(mk("nrows", "masked", kt), "scalar", nd=0)
        for name, v in f.cols.items():
            if isinstance(v, SV):
                r = self.sv_getitem(SV(v.term, "series", length=v.length, nd=1), k)
                cols[name] = SV(r.term, "series", length=n if n is not None else r.length, nd=1)
                n = cols[name].length if n is None else n
            else:
                cols[name] = SV(mk("item", to_term(v), kt), "series")
        if n is None and f.nrows is not None and cols:
            n = SV(mk("call", "len", (("a", to_term(next(iter(cols.values())))),)), "scalar", nd=0)
            for v in cols.values():
                if v.length is None:
                    v.length = n
        return VFrame(cols, n, "sub")

    def frame_getitem(self, f, k):
        I = self.I
        if isinstance(f, VRow):
            if isinstance(k, (VList, tuple)) and not isinstance(k, str):
                names = list(I.iterate(k))
                for n in names:
                    if key_of(n) not in f.cols:
                        I.throw(KeyError, n)
                return VRow({key_of(n): f.cols[key_of(n)] for n in names}, f.name)
            if isinstance(k, int) and k not in f.cols:
                return list(f.cols.values())[k]
            if key_of(k) not in f.cols:
                I.throw(KeyError, k)
            return f.cols[key_of(k)]
        if isinstance(k, VSet):
            I.throw(TypeError, "Passing a set as an indexer is not supported")
        if isinstance(k, VList):
            if k.items and all(isinstance(x, bool) for x in k.items):
                return I.unk("bool rows")
            return self.frame_sub(f, k.items)
        if isinstance(k, tuple):
            I.throw(KeyError, k)
        if isinstance(k, SV) and k.kind in ("array", "series"):
            return self.frame_rows(f, k)
        if isinstance(k, slice):
            return self.frame_rows(f, k)
        if isinstance(k, VFrame):
            return I.unk("frame mask")
        kk = key_of(k)
        if kk in f.cols:
            v = f.cols[kk]
            if isinstance(v, SV) and f.index != "range" and f.labels is None and f.origin != "series":
                v.lab = f.index
            return v
        if isinstance(k, SV) and k.wit is NOWIT:
            return SV(mk("item", to_term(f), k.term), "series", length=f.nrows, nd=1)
        I.throw(KeyError, k)

    def frame_setitem(self, f, k, v):
        I = self.I
        I.mutate(f, "[]=")
        if isinstance(f, VRow):
            f.cols[key_of(k)] = v
            return
        if isinstance(k, (VList,)):
            names = list(k.items)
            for j, n in enumerate(names):
                if isinstance(v, VFrame):
                    x = v.cols.get(key_of(n), list(v.cols.values())[j])
                elif isinstance(v, SV) and v.nd == 2:
                    x = self.getitem(v, (slice(None), j))
                else:
                    x = v
                f.cols[key_of(n)] = SV(to_term(self.as_series(x, f.nrows)), "series", length=f.nrows, nd=1)
                f.cols[key_of(n)].base = f
            return
        if isinstance(v, VList) and v.kind == "column":
            f.cols[key_of(k)] = v
            return
        if isinstance(k, SV) and k.kind in ("array", "series"):
            for n, x in list(f.cols.items()):
                f.cols[n] = SV(mk("setitem", x.term, k.term, to_term(v)), "series", length=f.nrows, nd=1)
            return
        s = self.as_series(v, f.nrows)
        if isinstance(v, SV) and v.kind == "series" and v.lab == "range" and f.index != "range" and f.labels is None:
            s = SV(mk("aligned", s.term, f.index), "series", length=s.length, nd=1)
        s = SV(s.term, "series", length=f.nrows if f.nrows is not None else s.length, nd=1)
        if f.nrows is None or (f.nrows == 0 and not f.cols):
            f.nrows = s.length
        f.cols[key_of(k)] = s
        s.base = f

    def indexer_get(self, ix, k):
        I = self.I
        o, how = ix.meta["obj"], ix.meta["how"]
        if isinstance(o, VRow):
            return self.frame_getitem(o, k)
        if isinstance(o, SV):
            return self.sv_index(o, k, how)
        cols = None
        row = k
        if isinstance(k, tuple):
            row, cols = k
        g = o
        if cols is not None and not (isinstance(cols, slice) and cols == slice(None)):
            if how == "iloc":
                names = list(o.cols)
                if isinstance(cols, slice):
                    cols = VList(names[cols])
                elif isinstance(cols, (VList, tuple)):
                    cols = VList([names[self.ival(x)] for x in I.iterate(cols)])
                else:
                    cols = names[self.ival(cols)]
            elif isinstance(cols, slice):
                names = list(o.cols)
                a = names.index(cols.start) if cols.start is not None else 0
                b = names.index(cols.stop) + 1 if cols.stop is not None else None
                cols = VList(names[a:b])
            elif isinstance(cols, VList) and cols.kind == "boolindex":
                cols = VList([n for n, q in zip(o.cols, cols.items) if I.truth(q)])
            g = self.frame_getitem(o, cols)
        if isinstance(row, slice) and row == slice(None):
            return g
        if isinstance(g, SV):
            return self.sv_index(g, row, how, o)
        if isinstance(g, VList):
            if o.labels is not None and how == "loc":
                return g.items[[key_of(x) for x in o.labels].index(key_of(row))]
            return I.getitem(g, row)
        if how == "loc" and self.labelled(row, g):
            return VFrame({n: self.sv_index(v if isinstance(v, SV) else self.as_series(v, g.nrows), row, how, g) for n, v in g.cols.items()}, None, g.index)
        if isinstance(row, SV) and row.kind in ("array", "series") or isinstance(row, slice):
            if isinstance(row, SV) and row.nd == 1 or isinstance(row, slice):
                return self.frame_rows(g, row)
        if isinstance(row, (VList, tuple)):
            return self.frame_rows(g, self.as_array(row, True))
        if g.labels is not None:
            lab = [key_of(x) for x in g.labels]
            if isinstance(row, SV) and len(lab) == 1:
                return VRow({n: self.col_at(g, n, 0) for n in g.cols}, g.labels[0])
            if isinstance(row, SV):
                return VRow({n: self.sv_index(self.as_series(v, g.nrows) if not isinstance(v, SV) else v, row, how, g) for n, v in g.cols.items()})
            i = lab.index(key_of(row)) if how == "loc" and key_of(row) in lab else (self.ival(row) if how == "iloc" else None)
            if i is None:
                I.throw(KeyError, row)
            return VRow({n: self.col_at(g, n, i) for n in g.cols}, g.labels[i])
        return VRow({n: self.sv_index(v, row, how, g) for n, v in g.cols.items()})

    def labelled(self, row, f):
        """does .loc[row] pick rows of f by labels that are not positions? (slices with bounds and positions; not masks, not labels taken from the table)"""
        if not isinstance(f, VFrame) or f.index == "range" or f.labels is not None:
            return False
        if isinstance(row, slice):
            return not all(x is None for x in (row.start, row.stop))
        if isinstance(row, SV) and row.kind in ("array", "series") and row.nd == 1:
            return positions(row.term)
        return isinstance(row, (VList, tuple)) and bool(list(row)) and all(isinstance(x, int) and not isinstance(x, bool) for x in row)

    def sv_index(self, s, row, how, frame=None):
        if how == "loc" and self.labelled(row, frame if frame is not None else s.base):
            f = frame if frame is not None else s.base
            return SV(mk("row", to_term(s), "loc", to_term(row), f.index), "series", nd=1)
        if isinstance(row, SV) and row.kind in ("array", "series") and row.nd == 1 or isinstance(row, (slice, VList)):
            return self.sv_getitem(SV(s.term, "series", length=s.length, nd=1), row)
        f = frame if frame is not None else (s.base if isinstance(s.base, VFrame) else None)
        rt = to_term(row)
        if rt.op == "call" and rt.a[0] in ("pandas.idxmax", "pandas.idxmin") and how == "loc":
            # label returned by idxmax: the row of the maximum (if labels are unique)
            return SV(mk("row", to_term(s), "label-of-max", rt, "dup" if f is not None and f.index == "dup" else "range"), "scalar", nd=0)
        if how == "loc" and f is not None and f.index != "range":
            return SV(mk("row", to_term(s), "loc", rt, f.index), "scalar", nd=0)
        if how == "loc" and f is None:
            return SV(mk("row", to_term(s), "loc", rt, "any"), "scalar", nd=0)
        r = self.sv_getitem(SV(s.term, "array", length=s.length, nd=1), row)
        return r if not isinstance(r, SV) else SV(r.term, "scalar", nd=0)

    def indexer_set(self, ix, k, v):
        o = ix.meta["obj"]
        self.I.mutate(o, f".{ix.ident}[]=")
        row, cols = k if isinstance(k, tuple) and len(k) == 2 else (k, None)
        if isinstance(o, SV):
            o.term = mk("setitem", o.term, to_term(row), to_term(v))
            return
        if isinstance(o, VFrame):
            names = list(o.cols)
            if cols is not None and not (isinstance(cols, slice) and cols == slice(None)):
                if isinstance(cols, (VList, tuple)):
                    names = [key_of(x) for x in self.I.iterate(cols)]
                elif isinstance(cols, slice):
                    names = names
                else:
                    names = [key_of(cols)] if ix.meta["how"] == "loc" else [names[cols]]
            whole = isinstance(row, slice) and row == slice(None)
            for j, n in enumerate(names):
                x = v
                if isinstance(v, VFrame):
                    x = v.cols.get(n, list(v.cols.values())[min(j, len(v.cols) - 1)])
                elif isinstance(v, SV) and v.nd == 2:
                    x = self.getitem(v, (slice(None), j))
                if whole:
                    o.cols[n] = SV(self.as_series(x, o.nrows).term, "series", length=o.nrows, nd=1, base=o)
                else:
                    old = o.cols.get(n)
                    o.cols[n] = SV(mk("setitem", to_term(old) if old is not None else c(None), to_term(row), to_term(x)), "series", length=o.nrows, nd=1, base=o)
