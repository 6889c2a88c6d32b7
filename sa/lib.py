"""Models of builtins and libraries for the abstract interpreter (assembled from the mixins)."""
from __future__ import annotations

from lib_builtin import BuiltinMixin
from lib_numpy import NumpyMixin
from lib_pandas import PandasMixin
from lib_pyd import PydanticMixin
from lib_mpl import MplMixin
from lib_facts import FactsMixin
from terms import mk
from values import *  # noqa: F403
from values import NOWIT, Ext, SV


class Lib(BuiltinMixin, NumpyMixin, PandasMixin, PydanticMixin, MplMixin, FactsMixin):
    def __init__(self, I):
        self.I = I
        self.func_hooks = {}
        self._fields_cache = {}
        self.rc = {}
        self.ext_overrides = {}
        self.witmap = {}

    # ---------------------------------------------------------------- external names
    CONST = {
        "numpy.nan": float("nan"), "numpy.inf": float("inf"), "numpy.pi": 3.141592653589793, "numpy.newaxis": None,
        "math.inf": float("inf"), "math.nan": float("nan"), "math.pi": 3.141592653589793, "numpy.e": 2.718281828459045,
        "math.e": 2.718281828459045, "typing.TYPE_CHECKING": False,
    }

    def ext_attr(self, path, name):
        full = f"{path}.{name}"
        if full in self.CONST:
            return self.CONST[full]
        full = self.alias(full)
        if full.endswith("rcParams") and full.startswith("matplotlib"):
            return self.rcparams()
        if full == "matplotlib.lines.Line2D.filled_markers":
            return ("o", "v", "^", "<", ">", "8", "s", "p", "*", "h", "H", "D", "d", "P", "X")
        return Ext(full)

    ALIAS = {
        "matplotlib.pyplot.rcParams": "matplotlib.rcParams",
        "scipy.integrate.simps": "scipy.integrate.simpson",
    }

    def alias(self, p):
        return self.ALIAS.get(p, p)

    def call_ext(self, path, args, kw):
        h = self.ext_overrides.get(path)
        if h is not None:
            return h(args, kw)
        top = path.split(".")[0]
        name = path.split(".")[-1]
        m = getattr(self, "x_" + path.replace(".", "_"), None)
        if m is not None:
            return m(args, kw)
        if top == "numpy" or top == "math":
            return self.call_numpy(path, args, kw)
        if top == "pandas":
            return self.call_pandas(path, args, kw)
        if top in ("matplotlib", "mpl_toolkits"):
            return self.call_mpl(path, args, kw)
        if top == "scipy" or top == "statsmodels":
            return self.call_scipy(path, args, kw)
        if top == "pydantic":
            return self.call_pyd(path, args, kw)
        if top == "logging":
            if name == "getLogger":
                return ExtObj("logger", "logger")
            self.I.event("log", name=name, args=args)
            return None
        if top == "warnings":
            self.I.event("log", name="warn", args=args)
            return None
        if path.startswith("pathlib.Path.") and args:
            # Path.open(p, ...): the method of its first argument
            o = args[0] if isinstance(args[0], ExtObj) else self.new_path(args[0])
            return self.path_call(o, path.rsplit(".", 1)[1], list(args[1:]), kw)
        if path == "pathlib.Path":
            return self.new_path(*args)
        if path in ("copy.copy", "copy.deepcopy"):
            return self.copy_(args[0], deep=name == "deepcopy")
        if path == "functools.partial":
            f, rest = args[0], list(args[1:])
            return Native("partial", lambda a, k: self.I.call(f, rest + list(a), {**kw, **k}))
        if path == "functools.reduce":
            xs = list(self.I.iterate(args[1]))
            acc = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                acc = self.I.call(args[0], [acc, x], {})
            return acc
        if path in ("functools.lru_cache", "functools.cache"):
            if args and isinstance(args[0], Func):
                args[0].attrs["memo"] = True
                return args[0]
            return ExtObj("decorator", "memo", {"memo": True})
        if path == "functools.wraps":
            return Native("wraps", lambda a, k: a[0])
        if path == "dataclasses.dataclass":
            return ExtObj("decorator", "dc", {"dataclass": True})
        if path == "dataclasses.field":
            f = kw.get("default_factory")
            return FieldInfo(kw.get("default", ...), f)
        if path == "dataclasses.replace":
            o = self.copy_(args[0])
            for k, v in kw.items():
                o.f[k] = v
            return o
        if path == "enum.auto":
            return ExtObj("enum.auto", "auto")
        if path in ("typing.cast",):
            return args[1]
        if path in ("typing.NewType",):
            return args[1]
        if top == "itertools":
            return self.call_itertools(name, args, kw)
        if path == "collections.OrderedDict":
            return self.b_dict(args, kw)
        if path == "collections.defaultdict":
            d = VDict()
            d.factory = args[0] if args else None
            return d
        if path == "collections.deque":
            return VList(list(self.I.iterate(args[0])) if args else [])
        if top == "operator":
            return self.call_operator(name, args, kw)
        if top in ("time", "datetime", "random", "os", "uuid", "secrets"):
            self.I.event("ambient", path=path)
            return SV(mk("ext", path, self.I.fresh("amb")), None)
        if name and name[0].isupper() and not name.isupper():
            self.I.event("extcall", path=path, args=args, kw=kw)
            return ExtObj(name, self.I.fresh(name), {"args": args, "kw": kw, "path": path})
        self.I.event("extcall", path=path, args=args, kw=kw)
        return SV(self.callterm(path, [str(i) for i in range(len(args))], args, kw), None)

    def callterm(self, path, names, args, kw):
        d = {}
        for n, a in zip(names, args):
            d[n] = to_term(a)
        for i in range(len(names), len(args)):
            d[str(i)] = to_term(args[i])
        for k, v in kw.items():
            d[k] = to_term(v)
        return mk("call", path, tuple(sorted(d.items())))

    def call_operator(self, name, args, kw):
        ops = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**", "or_": "|", "and_": "&", "mod": "%"}
        if name in ops:
            return self.I.binop(ops[name], args[0], args[1])
        cm = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}
        if name in cm:
            return self.I.compare(cm[name], args[0], args[1])
        if name == "itemgetter":
            ks = args
            if len(ks) == 1:
                return Native("itemgetter", lambda a, k: self.I.getitem(a[0], ks[0]))
            return Native("itemgetter", lambda a, k: tuple(self.I.getitem(a[0], q) for q in ks))
        if name == "attrgetter":
            return Native("attrgetter", lambda a, k: self.I.getattr(a[0], args[0]))
        if name == "contains":
            return self.I.contains(args[0], args[1])
        if name == "not_":
            return not self.I.truth(args[0])
        return self.I.unk("operator." + name)

    def call_itertools(self, name, args, kw):
        I = self.I
        if name == "chain":
            return VIter([x for a in args for x in I.iterate(a)])
        if name == "chain.from_iterable" or name == "from_iterable":
            return VIter([x for a in I.iterate(args[0]) for x in I.iterate(a)])
        if name == "product":
            import itertools

            rep = kw.get("repeat", 1)
            return VIter(list(itertools.product(*[list(I.iterate(a)) for a in args] * rep)))
        if name == "combinations":
            import itertools

            return VIter(list(itertools.combinations(list(I.iterate(args[0])), args[1])))
        if name == "cycle":
            xs = list(I.iterate(args[0]))
            return VIter(xs * (400 // max(1, len(xs)) + 1))
        if name == "count":
            import itertools

            start = args[0] if args else 0
            return VIter(itertools.count(start), unbounded=True)
        if name == "islice":
            xs = []
            rest = args[1:]
            stop = rest[0] if len(rest) == 1 else rest[1]
            start = 0 if len(rest) == 1 else (rest[0] or 0)
            step = rest[2] if len(rest) > 2 and rest[2] else 1
            for i, x in enumerate(I.iterate(args[0])):
                if stop is not None and i >= stop:
                    break
                if i >= start and (i - start) % step == 0:
                    xs.append(x)
            return VIter(xs)
        if name == "repeat":
            if len(args) > 1:
                return VIter([args[0]] * args[1])
            import itertools

            return VIter(itertools.repeat(args[0]), unbounded=True)
        if name == "zip_longest":
            import itertools

            return VIter(list(itertools.zip_longest(*[list(I.iterate(a)) for a in args], fillvalue=kw.get("fillvalue"))))
        if name == "accumulate":
            acc, out = None, []
            for i, x in enumerate(I.iterate(args[0])):
                acc = x if i == 0 else (I.call(args[1], [acc, x], {}) if len(args) > 1 else I.binop("+", acc, x))
                out.append(acc)
            return VIter(out)
        if name == "groupby":
            return VIter([])
        if name == "starmap":
            return VIter([I.call(args[0], list(I.iterate(a)), {}) for a in I.iterate(args[1])])
        if name == "pairwise":
            xs = list(I.iterate(args[0]))
            return VIter(list(zip(xs, xs[1:])))
        return I.unk("itertools." + name)
