"""Abstract values of the interpreter."""
from __future__ import annotations

from terms import Term, mk, c

NOWIT = type("NoWit", (), {"__repr__": lambda s: "NOWIT"})()


class NPF(float):
    """a folded numpy scalar: divides by zero without raising"""


class Owned:
    owner = None


class SV(Owned):
    """symbolic value: a term with an optional partition witness (used for control only)"""

    __slots__ = ("term", "kind", "wit", "base", "owner", "length", "nd", "lab")

    def __init__(self, term, kind=None, wit=NOWIT, base=None, owner=None, length=None, nd=None):
        self.term = term
        self.kind = kind  # 'array','series','scalar','str','bool','obj',None
        self.wit = wit
        self.base = base
        self.owner = owner
        self.length = length
        self.nd = nd
        self.lab = None  # of a series: its row labels, where they are known not to be those of a plain table

    def __repr__(self):
        return f"SV({self.term!r})"


class VList(Owned):
    def __init__(self, items=(), owner=None, kind="list"):
        self.items = list(items)
        self.owner = owner
        self.kind = kind

    def __repr__(self):
        return f"V{self.kind}({self.items!r})"


class VDict(Owned):
    def __init__(self, items=(), owner=None):
        self.d = {}
        self.owner = owner
        for k, v in items:
            self.d[key_of(k)] = (k, v)

    def get(self, k):
        return self.d[key_of(k)][1]

    def set(self, k, v):
        kk = key_of(k)
        if kk in self.d:
            self.d[kk] = (self.d[kk][0], v)
        else:
            self.d[kk] = (k, v)

    def has(self, k):
        return key_of(k) in self.d

    def keys(self):
        return [k for k, _ in self.d.values()]

    def values(self):
        return [v for _, v in self.d.values()]

    def items(self):
        return list(self.d.values())

    def __repr__(self):
        return "VDict{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


class FieldView:
    """the attributes of an instance as the storage of a dictionary (its __dict__)"""

    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        return (k, self.o.f[k])

    def __setitem__(self, k, kv):
        self.o.f[kv[0]] = kv[1]

    def __delitem__(self, k):
        del self.o.f[k]

    def __contains__(self, k):
        return k in self.o.f

    def __iter__(self):
        return iter(self.o.f)

    def __len__(self):
        return len(self.o.f)

    def keys(self):
        return self.o.f.keys()

    def values(self):
        return [(k, v) for k, v in self.o.f.items()]

    def items(self):
        return [(k, (k, v)) for k, v in self.o.f.items()]

    def pop(self, k, *dflt):
        if k in self.o.f:
            return (k, self.o.f.pop(k))
        if dflt:
            return dflt[0]
        raise KeyError(k)

    def get(self, k, dflt=None):
        return (k, self.o.f[k]) if k in self.o.f else dflt

    def setdefault(self, k, kv):
        return (k, self.o.f.setdefault(k, kv[1]))

    def clear(self):
        self.o.f.clear()

    def copy(self):
        return {k: (k, v) for k, v in self.o.f.items()}


class VSet(Owned):
    def __init__(self, items=(), owner=None):
        self.d = {}
        self.owner = owner
        for x in items:
            self.d.setdefault(key_of(x), x)

    def __repr__(self):
        return f"VSet({list(self.d.values())!r})"


class VFrame(Owned):
    """a table: concrete column names, abstract columns; `alias`: the table whose buffers it shares"""

    alias = None

    def __init__(self, cols, nrows, index="range", owner=None, labels=None, origin=None):
        self.cols = dict(cols)  # name -> SV
        self.nrows = nrows
        self.index = index
        self.owner = owner
        self.labels = labels
        self.origin = origin
        for k, v in list(self.cols.items()):
            if isinstance(v, SV):
                if isinstance(v.base, VFrame):  # a column of another table: keep that one attached to its table
                    self.cols[k] = v = SV(v.term, v.kind, v.wit, length=v.length, nd=v.nd)
                v.base = self

    def __repr__(self):
        return f"VFrame({list(self.cols)})"


class VRow(Owned):
    """one row of a table"""

    def __init__(self, cols, name=None):
        self.cols = dict(cols)
        self.name = name
        self.owner = None


class VIter:
    """lazy or eager iterator"""

    def __init__(self, it, unbounded=False):
        self.it = iter(it)
        self.unbounded = unbounded


class VGrid:
    """2D array of axes"""

    def __init__(self, rows):
        self.rows = rows


class Cls:
    def __init__(self, name, qual, bases, mod):
        self.name = name
        self.qual = qual
        self.bases = bases
        self.ns = {}
        self.mod = mod
        self.ann = {}  # name -> annotation node
        self.order = []
        self.node = None
        self.members = None
        self.scope = None
        self.dataclass = False
        self._mro = None

    def mro(self):
        if self._mro is None:
            self._mro = _mro(self)
        return self._mro

    def lookup(self, name):
        for k in self.mro():
            if isinstance(k, Cls) and name in k.ns:
                return k.ns[name], k
        return None, None

    def has_ext_base(self, pred):
        return any(isinstance(k, Ext) and pred(k.path) for k in self.mro())

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


def _mro(cls):
    seqs = [_mro(b) if isinstance(b, Cls) else [b] for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    seqs = [list(s) for s in seqs if s]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            h = s[0]
            if not any(h in o[1:] for o in seqs):
                break
        res.append(h)
        for s in seqs:
            if s and s[0] == h:
                del s[0]
    return res


class Ext:
    """external function, class or module by dotted path"""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))

    def __repr__(self):
        return f"<ext {self.path}>"


class ExtObj(Owned):
    """instance of an external class (figure, axes, logger, file ...)"""

    def __init__(self, kind, ident, meta=None, term=None):
        self.kind = kind
        self.ident = ident
        self.meta = meta or {}
        self.attrs = {}
        self.children = {}
        self.term = term

    def __repr__(self):
        return f"<{self.kind} {self.ident}>"


class ExtMeth:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return f"<{self.obj!r}.{self.name}>"


class Inst(Owned):
    def __init__(self, cls, label=None):
        self.cls = cls
        self.f = {}
        self.priv = {}
        self.fields_set = set()
        self.label = label
        self.owner = None

    def __repr__(self):
        return f"<{self.cls.name} {self.label or ''}>"


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class Func:
    def __init__(self, node, scope, mod, qual, owner_cls=None):
        self.node = node
        self.scope = scope
        self.mod = mod
        self.qual = qual
        self.cls = owner_cls
        self.defaults = []
        self.kwdefaults = []
        self.is_gen = None
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return f"<bound {self.func!r}>"


class Native:
    """a built-in implemented by the interpreter"""

    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<native {self.name}>"


class Deco:
    """property/staticmethod/classmethod/validator wrappers found in class namespaces"""

    def __init__(self, kind, func, **meta):
        self.kind = kind
        self.func = func
        self.meta = meta


class FieldInfo:
    def __init__(self, default=..., factory=None, **meta):
        self.default = default
        self.factory = factory
        self.meta = meta


class Mod:
    def __init__(self, name, tree, path):
        self.name = name
        self.tree = tree
        self.path = path
        self.ns = {}
        self.done = False

    def __repr__(self):
        return f"<module {self.name}>"


class PyExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, cls, args=(), where=None, implicit=False):
        super().__init__(str(cls))
        self.cls = cls  # builtin exception class, Cls or Ext
        self.pargs = args
        self.where = where
        self.implicit = implicit  # raised by an operation, not by a raise/assert statement
        self.stack = None

    @property
    def cname(self):
        return self.cls.__name__ if isinstance(self.cls, type) else getattr(self.cls, "name", None) or self.cls.path

    def __str__(self):
        return f"{self.cname}({', '.join(str(a) for a in self.pargs)}) at {self.where}"


def key_of(v):
    if isinstance(v, SV):
        if v.wit is not NOWIT:
            try:
                hash(v.wit)
                return v.wit
            except TypeError:
                pass
        return v.term
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (VList, VDict, VSet)):
        raise PyExc(TypeError, ("unhashable",), implicit=True)
    if isinstance(v, tuple):
        return tuple(key_of(x) for x in v)
    if isinstance(v, Bound):
        return ("bound", id(v.func), id(v.self))
    if isinstance(v, ExtMeth):
        return ("em", id(v.obj), v.name)
    return v


def sym(name, kind=None, **kw):
    return SV(mk("sym", name), kind, **kw)


_labels = {}


def to_term(v) -> Term:
    if isinstance(v, SV):
        return v.term
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return c(v)
    if isinstance(v, float):
        return c(float(v))
    if v is ...:
        return c("...")
    if isinstance(v, VList):
        return mk("list", tuple(to_term(x) for x in v.items))
    if isinstance(v, tuple):
        return mk("list", tuple(to_term(x) for x in v))
    if isinstance(v, slice):
        return mk("slice", to_term(v.start), to_term(v.stop), to_term(v.step))
    if isinstance(v, VDict):
        return mk("dict", tuple((to_term(k), to_term(x)) for k, x in v.items()))
    if isinstance(v, VSet):
        return mk("set", tuple(to_term(x) for x in v.d.values()))
    if isinstance(v, VFrame):
        return mk("frame", tuple(v.cols), tuple(to_term(x) for x in v.cols.values()))
    if isinstance(v, VRow):
        return mk("frame", tuple(v.cols), tuple(to_term(x) for x in v.cols.values()))
    if isinstance(v, Inst):
        return mk("obj", v.label or f"{v.cls.name}#{id(v)}")
    if isinstance(v, EnumMember):
        return mk("enum", v.cls.name, v.name)
    if isinstance(v, (Ext,)):
        return mk("fn", v.path)
    if isinstance(v, Func):
        return mk("fn", v.qual)
    if isinstance(v, Bound):
        return mk("fn", v.func.qual)
    if isinstance(v, Cls):
        return mk("fn", v.qual)
    if isinstance(v, ExtObj):
        return v.term if v.term is not None else mk("ext", v.kind, v.ident)
    if isinstance(v, ExtMeth):
        return mk("extattr", to_term(v.obj), v.name)
    if isinstance(v, VGrid):
        return mk("list", tuple(to_term(x) for r in v.rows for x in r))
    return mk("obj", repr(v))
