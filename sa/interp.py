"""Abstract interpreter for the Python subset used by the package.

It evaluates the *source* (AST) of the package over abstract values: table columns, options and
library results are terms of a def-use graph; only control data (names, flags, small counts) is
concrete. Conditions on abstract data become atoms; a run follows one valuation of the atoms
(trace partitioning), and `explore` covers the valuations reachable by flipping condition sites.
Nothing of the package under analysis is imported or executed.
"""
from __future__ import annotations

import ast
import math
import os
import re
import string
from collections import Counter

from terms import Term, mk, c, leaves
from values import *  # noqa: F403
from values import NOWIT

BUILTIN_EXC = {n: v for n, v in vars(__builtins__ if isinstance(__builtins__, type(os)) else __import__("builtins")).items()
               if isinstance(v, type) and issubclass(v, BaseException)}


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Scope:
    __slots__ = ("vars", "parent", "globals", "nonlocals", "globs", "func", "yields")

    def __init__(self, parent, globs, func=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.globals = set()
        self.nonlocals = set()
        self.func = func
        self.yields = None


class Event:
    __slots__ = ("kind", "d", "site", "stack", "n", "guards")

    def __init__(self, kind, d, site, stack, n, guards):
        self.kind = kind
        self.d = d
        self.site = site
        self.stack = stack
        self.n = n
        self.guards = guards

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k) from None

    def __repr__(self):
        return f"Event({self.kind}, {self.d}, {self.site})"


class Policy:
    """valuation of condition atoms"""

    def __init__(self, flips=None, default=False):
        self.flips = dict(flips or {})
        self.default = default

    def key(self):
        return tuple(sorted(self.flips.items()))


PYBIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "|": lambda a, b: a | b,
    "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
    "@": lambda a, b: a @ b,
}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "|": "or",
          "&": "and", "^": "xor", "@": "matmul"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
PYCMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
         "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def is_concrete(v):
    if v is None or v is ... or isinstance(v, (bool, int, float, str, bytes)):
        return True
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    return False


def deepconc(v):
    """concrete python value of fully concrete containers, else raises"""
    if is_concrete(v):
        return v
    if isinstance(v, VList):
        return [deepconc(x) for x in v.items]
    if isinstance(v, VSet):
        return {deepconc(x) for x in v.d.values()}
    if isinstance(v, VDict):
        return {deepconc(k): deepconc(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(deepconc(x) for x in v)
    raise Unsupported("not concrete")


class Interp:
    def __init__(self, root="/repo/src", pkg="chainconsumer", policy=None, set_order=1):
        self.root = root
        self.pkg = pkg
        self.policy = policy or Policy()
        self.set_order = set_order
        self.mods = {}
        self.events = []
        self.stack = []
        self.atoms = {}
        self.oracle = None  # representative of the partition cell under analysis: decides an atom or returns None
        self.flip_only = None  # a condition is flipped only on the terms this accepts
        self.sites_seen = {}
        self.record = False
        import terms as _terms

        _terms.SRC = self
        self.reads = None
        self.calls = Counter()
        self.steps = 0
        self.max_steps = 6_000_000
        self.undecided = []
        self.cur = None
        self.curmod = None
        self.uid = Counter()
        self.guards = []
        self.memo = {}
        self.facts = {}  # leaf term -> fact dict
        self.depth = 0
        self.read_rc = {}
        self.rc_writes = []
        self.handled = []  # exceptions handled
        import lib

        self.lib = lib.Lib(self)
        self.builtins = self.lib.builtins()

    # ------------------------------------------------------------------ modules
    def modpath(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return p if os.path.exists(p) else None
        p = base + ".py"
        return p if os.path.exists(p) else None

    def load(self, name) -> Mod:
        if name in self.mods:
            return self.mods[name]
        p = self.modpath(name)
        if p is None:
            raise Unsupported(f"no module {name}")
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        tree = parse_file(p)
        m = Mod(name, tree, p)
        m.ns["__name__"] = name
        m.ns["__file__"] = p
        self.mods[name] = m
        sc = Scope(None, m.ns)
        sc.vars = m.ns
        old = (self.cur, self.curmod, self.stack)
        self.curmod = m
        self.stack = []
        try:
            self.exec_block(tree.body, sc)
        finally:
            self.cur, self.curmod, self.stack = old
        m.done = True
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            self.mods[par].ns.setdefault(leaf, m)
        return m

    def import_name(self, name):
        if name == self.pkg or name.startswith(self.pkg + "."):
            if self.modpath(name):
                return self.load(name)
        return Ext(name)

    # ------------------------------------------------------------------ events
    def site(self):
        n = self.cur
        m = self.curmod.name if self.curmod else "?"
        fn = self.stack[-1].qual if self.stack else m
        return (m, fn, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))

    def where(self):
        return (self.curmod, self.cur, self.stack[-1] if self.stack else None)

    def event(self, kind, **d):
        e = Event(kind, d, self.site(), tuple(f.qual for f in self.stack), len(self.events), ())
        self.events.append(e)
        return e

    def fresh(self, what):
        self.uid[what] += 1
        return f"{what}#{self.uid[what]}"

    def unk(self, why, kind=None):
        self.undecided.append((why, self.site()))
        return SV(mk("unk", why, self.fresh("u")), kind)

    def mutate(self, obj, how):
        root = obj
        seen = 0
        while isinstance(root, SV) and root.base is not None and seen < 20:
            if root.owner:
                break
            root = root.base
            seen += 1
        n = 0
        while isinstance(root, VFrame) and root.alias is not None and not root.owner and n < 10 and (isinstance(obj, SV) or how.startswith(".")):
            root = root.alias
            n += 1
        ow = getattr(root, "owner", None) or getattr(obj, "owner", None)
        self.event("mutate", obj=root, how=how, owner=ow, direct=obj)

    # ------------------------------------------------------------------ exceptions
    def throw(self, cls, *args, implicit=True):
        raise PyExc(cls, args, self.site(), implicit)

    # ------------------------------------------------------------------ conditions
    def truth(self, v) -> bool:
        if isinstance(v, SV):
            if v.wit is not NOWIT:
                return bool(v.wit)
            if v.kind in ("array", "series", "frame") and v.nd not in (0, None) and v.term.op != "cmp":
                pass
            if v.length is not None and v.kind == "list":
                return self.truth(v.length)
            if v.kind == "str" and v.term.op == "cat" and any(isinstance(p, str) and p for p in v.term.a[0]):
                return True
            return self.decide(v.term)
        if isinstance(v, VList):
            return len(v.items) > 0
        if isinstance(v, (VDict, VSet)):
            return len(v.d) > 0
        if isinstance(v, VFrame):
            self.throw(ValueError, "truth value of a DataFrame is ambiguous")
        if isinstance(v, Inst):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(self.getattr(v, "__bool__"), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(self.getattr(v, "__len__"), [], {}))
            return True
        if isinstance(v, ExtMeth):
            return self.decide(to_term(v))
        if is_concrete(v) or isinstance(v, tuple):
            return bool(v)
        return True

    def decide(self, term, assume=None) -> bool:
        neg = False
        while term.op == "not":
            neg = not neg
            term = term.a[0]
        if term.op == "c":
            return bool(term.a[0]) != neg
        if term.op == "cmp" and term.a[0] == "<=":
            term = mk("cmp", "<", term.a[2], term.a[1])
            neg = not neg
        if term.op == "and":
            r = all([self.decide(x, assume) for x in term.a])
            return r != neg
        if term.op == "or":
            r = any([self.decide(x, assume) for x in term.a])
            return r != neg
        k = self.lib.known_truth(term)
        if k is not None:
            return k != neg
        if term in self.atoms:
            return self.atoms[term] != neg
        if self.oracle is not None:
            k = self.oracle(term)
            if k is not None:
                self.atoms[term] = bool(k)
                return bool(k) != neg
        s = self.site()
        key = (s[0], s[2], s[3])
        dflt = self.policy.default if assume is None else assume
        if assume is None and term.op == "call" and term.a[0] in ("numpy.isfinite", "math.isfinite"):
            # data are finite unless the path says otherwise
            dflt = not neg
        # the default is expressed on the condition as written (before negation)
        val = self.policy.flips.get(key) if self.record and (self.flip_only is None or self.flip_only(term)) else None
        if val is None:
            val = dflt
        elif val == "flip":
            val = not dflt
        if self.record:
            self.sites_seen.setdefault(key, dflt)
        res = val != neg
        self.atoms[term] = res
        return val

    # ------------------------------------------------------------------ names
    def lookup(self, scope, name):
        if name in scope.globals:
            if name in scope.globs:
                return scope.globs[name]
        s = scope
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if name in scope.globs:
            return scope.globs[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        # local assigned later or unknown
        self.throw(UnboundLocalError if scope.func else NameError, name)

    def assign_name(self, scope, name, v):
        if name in scope.globals:
            scope.globs[name] = v
            self.event("setglobal", name=name, value=v)
            return
        if name in scope.nonlocals:
            s = scope.parent
            while s is not None:
                if name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
        scope.vars[name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, scope):
        for st in body:
            self.exec(st, scope)

    def exec(self, st, scope):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        self.cur = st
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.undecided.append((f"stmt {type(st).__name__}", self.site()))
            return
        m(st, scope)

    def s_Expr(self, st, sc):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, sc)

    def s_Pass(self, st, sc):
        pass

    def s_Return(self, st, sc):
        v = self.eval(st.value, sc) if st.value is not None else None
        raise ReturnEx(v)

    def s_Break(self, st, sc):
        raise BreakEx

    def s_Continue(self, st, sc):
        raise ContinueEx

    def s_Assign(self, st, sc):
        v = self.eval(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, sc), sc)

    def s_TypeAlias(self, st, sc):
        self.assign(st.name, self.eval(st.value, sc), sc)

    def s_AugAssign(self, st, sc):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(sc, t.id)
            v = self.eval(st.value, sc)
            self.cur = st
            self.assign_name(sc, t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, sc)
            self.cur = st
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            cur = self.getitem(o, k)
            v = self.eval(st.value, sc)
            self.cur = st
            self.setitem(o, k, self.inplace(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, VList) and op == "+":
            self.mutate(cur, "+=")
            cur.items.extend(self.iterate(v))
            return cur
        if isinstance(cur, VDict) and op == "|":
            self.mutate(cur, "|=")
            for k, x in (v.items() if isinstance(v, VDict) else [tuple(self.iterate(y)) for y in self.iterate(v)]):
                cur.set(k, x)
            return cur
        if isinstance(cur, VSet) and op in "|&-":
            self.mutate(cur, op + "=")
            r = self.binop(op, cur, v)
            cur.d = r.d
            return cur
        if isinstance(cur, SV) and self.is_array(cur):
            r = self.binop(op, cur, v)
            # in place: every alias sees the new value
            self.mutate(cur, f"in-place {op}=")
            cur.term = r.term if isinstance(r, SV) else to_term(r)
            b = cur.base
            n = 0
            while isinstance(b, SV) and n < 10:
                b.term = mk("mutated", b.term, cur.term)
                b = b.base
                n += 1
            cur.wit = NOWIT
            return cur
        return self.binop(op, cur, v)

    def is_array(self, sv):
        if sv.kind in ("array", "series"):
            return True
        return False

    def s_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, sc)
                k = self.eval(t.slice, sc)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, sc)
                self.mutate(o, f"del .{t.attr}")
                if isinstance(o, Inst):
                    o.f.pop(t.attr, None)

    def delitem(self, o, k):
        self.mutate(o, "del []")
        if isinstance(o, VDict):
            if not o.has(k):
                self.throw(KeyError, k)
            del o.d[key_of(k)]
        elif isinstance(o, VList) and isinstance(k, (int, slice)):
            del o.items[k]
        elif isinstance(o, VFrame):
            o.cols.pop(k, None)

    def s_If(self, st, sc):
        v = self.eval(st.test, sc)
        self.cur = st.test
        if self.truth(v):
            self.exec_block(st.body, sc)
        else:
            self.exec_block(st.orelse, sc)

    def s_While(self, st, sc):
        n = 0
        while True:
            v = self.eval(st.test, sc)
            self.cur = st.test
            if isinstance(v, SV) and v.wit is NOWIT and self.lib.known_truth(v.term) is None:
                # data-dependent loop: one abstract iteration, then exit
                if n >= 1:
                    break
            elif not self.truth(v):
                self.exec_block(st.orelse, sc)
                break
            n += 1
            if n > 400:
                self.undecided.append(("while bound", self.site()))
                self.event("loop-bound")
                break
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                break
            except ContinueEx:
                continue

    def s_For(self, st, sc):
        it = self.eval(st.iter, sc)
        self.cur = st.iter
        broke = False
        for i, x in enumerate(self.iterate(it)):
            if i > 3000:
                raise Budget("loop")
            self.assign(st.target, x, sc)
            try:
                self.exec_block(st.body, sc)
            except BreakEx:
                broke = True
                break
            except ContinueEx:
                continue
        if not broke:
            self.exec_block(st.orelse, sc)

    def s_Assert(self, st, sc):
        v = self.eval(st.test, sc)
        self.cur = st
        if isinstance(v, SV) and v.wit is NOWIT:
            ok = self.decide(v.term, assume=True)
        else:
            ok = self.truth(v)
        self.event("assert", cond=v, ok=ok)
        if not ok:
            msg = self.eval(st.msg, sc) if st.msg is not None else None
            raise PyExc(AssertionError, (msg,) if msg is not None else (), self.site())

    def s_Raise(self, st, sc):
        if st.exc is None:
            if self.handled:
                raise self.handled[-1]
            self.throw(RuntimeError, "No active exception")
        v = self.eval(st.exc, sc)
        self.cur = st
        raise self.to_exc(v)

    def to_exc(self, v):
        if isinstance(v, PyExc):
            return v
        if isinstance(v, type) and issubclass(v, BaseException):
            return PyExc(v, (), self.site())
        if isinstance(v, Inst):
            return PyExc(v.cls, v.f.get("args", ()), self.site())
        if isinstance(v, Cls):
            return PyExc(v, (), self.site())
        if isinstance(v, (Ext,)):
            return PyExc(v, (), self.site())
        if isinstance(v, ExtObj) and v.meta.get("exc"):
            return PyExc(v.meta["exc"], v.meta.get("args", ()), self.site())
        return PyExc(TypeError, ("exceptions must derive from BaseException",), self.site(), True)

    def exc_matches(self, e: PyExc, t) -> bool:
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, Ext) and t.path.endswith("ValidationError"):
            return isinstance(e.cls, Ext) and e.cls.path.endswith("ValidationError")
        ec = e.cls
        if isinstance(ec, Ext):
            if ec.path.endswith("ValidationError"):
                ec = ValueError
            elif ec.path.endswith("LinAlgError"):
                ec = ValueError
            else:
                return isinstance(t, Ext) and t == ec or t is Exception or t is BaseException
        if isinstance(ec, Cls):
            for k in ec.mro():
                if k is t or (isinstance(k, type) and isinstance(t, type) and issubclass(k, t)):
                    return True
            return False
        return isinstance(t, type) and isinstance(ec, type) and issubclass(ec, t)

    def s_Try(self, st, sc):
        depth = len(self.stack)
        try:
            try:
                self.exec_block(st.body, sc)
            except PyExc as e:
                del self.stack[depth:]
                for h in st.handlers:
                    t = self.eval(h.type, sc) if h.type is not None else BaseException
                    if self.exc_matches(e, t):
                        if h.name:
                            eo = ExtObj("exception", self.fresh("exc"), {"exc": e.cls, "args": e.pargs, "pyexc": e})
                            sc.vars[h.name] = eo
                        self.handled.append(e)
                        try:
                            self.exec_block(h.body, sc)
                        finally:
                            self.handled.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, sc)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, sc)

    s_TryStar = s_Try

    def s_With(self, st, sc):
        exits = []
        for item in st.items:
            cm = self.eval(item.context_expr, sc)
            self.cur = st
            if isinstance(cm, Inst):
                v = self.call(self.getattr(cm, "__enter__"), [], {})
                exits.append(lambda cm=cm: self.call(self.getattr(cm, "__exit__"), [None, None, None], {}))
            elif isinstance(cm, ExtObj) and cm.kind == "genctx":
                v = cm.meta["value"]
                exits.append(cm.meta["exit"])
            else:
                v = cm
                if isinstance(cm, ExtObj):
                    exits.append(lambda cm=cm: self.event("ext", obj=cm, name="__exit__", args=(), kw={}, ret=None))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, sc)
        try:
            self.exec_block(st.body, sc)
        finally:
            for f in reversed(exits):
                f()

    def s_Global(self, st, sc):
        sc.globals.update(st.names)

    def s_Nonlocal(self, st, sc):
        sc.nonlocals.update(st.names)

    def s_Import(self, st, sc):
        for a in st.names:
            m = self.import_name(a.name)
            if a.asname:
                sc.vars[a.asname] = m
            else:
                top = a.name.split(".")[0]
                sc.vars[top] = self.import_name(top)

    def s_ImportFrom(self, st, sc):
        if st.level:
            base = self.curmod.name.split(".")
            is_pkg = self.curmod.path.endswith("__init__.py")
            drop = st.level - (1 if is_pkg else 0)
            if drop:
                base = base[:-drop]
            name = ".".join(base + ([st.module] if st.module else []))
        else:
            name = st.module
        if name == "__future__":
            return
        m = self.import_name(name)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            sc.vars[k] = v
                continue
            if isinstance(m, Mod):
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif self.modpath(name + "." + a.name):
                    v = self.load(name + "." + a.name)
                else:
                    self.throw(ImportError, f"cannot import name {a.name} from {name}")
            else:
                v = self.lib.ext_attr(m.path, a.name)
            sc.vars[a.asname or a.name] = v

    def s_FunctionDef(self, st, sc):
        f = self.make_func(st, sc)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, sc)
            v = self.decorate(dv, v)
        sc.vars[st.name] = v

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, st, sc):
        qn = getattr(st, "name", "<lambda>")
        if sc.func is not None:
            qual = f"{sc.func.qual}.<locals>.{qn}"
        elif isinstance(getattr(sc, "vars", None), dict) and "__qualname__" in sc.vars:
            qual = f"{sc.vars['__qualname__']}.{qn}"
        else:
            qual = f"{self.curmod.name.replace(self.pkg + '.', '')}.{qn}"
        # class scopes are not visible from methods
        par = sc
        if "__qualname__" in sc.vars and sc.func is None:
            par = sc.parent
        f = Func(st, par, self.curmod, qual)
        f.globs = sc.globs
        a = st.args
        f.defaults = [self.eval(d, sc) for d in a.defaults]
        f.kwdefaults = [None if d is None else (self.eval(d, sc),) for d in a.kw_defaults]
        if isinstance(st, ast.Lambda):
            f.is_gen = False
        else:
            f.is_gen = _has_yield(st)
        return f

    def decorate(self, dv, f):
        if isinstance(dv, Deco) and dv.kind == "deco-factory":
            return Deco(dv.meta["k"], f, **{k: v for k, v in dv.meta.items() if k != "k"})
        if isinstance(dv, Native):
            return dv.fn([f], {})
        if isinstance(dv, (Func, Bound, Cls)):
            return self.call(dv, [f], {})
        if isinstance(dv, Deco):  # e.g. @prop.setter
            return f
        if isinstance(dv, Ext):
            p = dv.path
            last = p.split(".")[-1]
            if last in ("cached_property",):
                return Deco("cached_property", f)
            if last in ("lru_cache", "cache"):
                f.attrs["memo"] = True
                return f
            if last == "contextmanager":
                f.attrs["ctx"] = True
                return f
            if last in ("computed_field",):
                return f
            if last in ("wraps",):
                return f
            if last in ("dataclass",):
                if isinstance(f, Cls):
                    f.dataclass = True
                return f
            return f
        if isinstance(dv, ExtObj) and dv.kind == "decorator":
            if dv.meta.get("memo"):
                f.attrs["memo"] = True
            if dv.meta.get("dataclass") and isinstance(f, Cls):
                f.dataclass = True
            return f
        return f

    def s_ClassDef(self, st, sc):
        bases = [self.eval(b, sc) for b in st.bases]
        qual = st.name
        k = Cls(st.name, qual, [b for b in bases], self.curmod)
        k.node = st
        csc = Scope(sc, sc.globs, None)
        csc.vars["__qualname__"] = (sc.func.qual + "." if sc.func else "") + st.name
        csc.vars["__module__"] = self.curmod.name
        for s in st.body:
            self.cur = s
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                k.ann[s.target.id] = s.annotation
                if s.target.id not in k.order:
                    k.order.append(s.target.id)
                if s.value is not None:
                    csc.vars[s.target.id] = self.eval(s.value, csc)
            else:
                self.exec(s, csc)
        k.scope = sc
        for n, v in csc.vars.items():
            if n in ("__qualname__", "__module__"):
                continue
            k.ns[n] = v
            fn = v.func if isinstance(v, Deco) else v
            if isinstance(fn, Func) and fn.cls is None:
                fn.cls = k
        if k.has_ext_base(lambda p: p.split(".")[-1] in ("Enum", "StrEnum", "IntEnum", "Flag")):
            k.members = {}
            auto = 0
            for n, v in list(k.ns.items()):
                if n.startswith("__") or isinstance(v, (Func, Deco)):
                    continue
                if isinstance(v, ExtObj) and v.kind == "enum.auto":
                    auto += 1
                    v = auto
                if k.has_ext_base(lambda p: p.endswith("StrEnum")) and v is None:
                    v = n.lower()
                dup = None
                for e in k.members.values():
                    if is_concrete(v) and is_concrete(e.value) and e.value == v and type(e.value) is type(v):
                        dup = e
                e = dup or EnumMember(k, n, v)
                k.members[n] = e
                k.ns[n] = e
        v = k
        for d in reversed(st.decorator_list):
            v = self.decorate(self.eval(d, sc), v)
        sc.vars[st.name] = v

    def s_Match(self, st, sc):
        v = self.eval(st.subject, sc)
        for case in st.cases:
            self.cur = case.pattern
            if self.match(case.pattern, v, sc) and (case.guard is None or self.truth(self.eval(case.guard, sc))):
                self.exec_block(case.body, sc)
                return

    def match(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.eval(p.value, sc)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value or (isinstance(v, SV) and v.wit is p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, sc):
                return False
            if p.name:
                sc.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, sc) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            k = self.eval(p.cls, sc)
            if not self.truth(self.lib.isinstance_(v, k)):
                return False
            return all(self.match(q, self.getattr(v, a), sc) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchSequence) and isinstance(v, (VList, tuple)):
            items = v.items if isinstance(v, VList) else list(v)
            if len(items) != len(p.patterns):
                return False
            return all(self.match(q, x, sc) for q, x in zip(p.patterns, items))
        self.undecided.append(("match", self.site()))
        return False

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.assign_name(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if isinstance(v, SV) and v.length is None and star is None:
                items = [self.getitem(v, i) for i in range(n)]
            else:
                items = list(self.iterate(v, expect=n if star is None else None))
            if star is None:
                if len(items) != n:
                    self.throw(ValueError, "unpack")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, sc)
            else:
                after = n - star - 1
                for e, x in zip(t.elts[:star], items[:star]):
                    self.assign(e, x, sc)
                self.assign(t.elts[star].value, VList(items[star:len(items) - after]), sc)
                for e, x in zip(t.elts[star + 1:], items[len(items) - after:]):
                    self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            self.cur = t
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            self.cur = t
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, sc):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        self.cur = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk(f"expr {type(e).__name__}")
        return m(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.lookup(sc, e.id)

    def e_Attribute(self, e, sc):
        o = self.eval(e.value, sc)
        self.cur = e
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        k = self.eval(e.slice, sc)
        self.cur = e
        return self.getitem(o, k)

    def e_Slice(self, e, sc):
        f = lambda x: self.eval(x, sc) if x is not None else None  # noqa: E731
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return VList(self.elts(e.elts, sc))

    def e_Set(self, e, sc):
        return VSet(self.elts(e.elts, sc))

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc)))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, sc)
                if isinstance(m, VDict):
                    for kk, vv in m.items():
                        d.set(kk, vv)
                else:
                    self.undecided.append(("dict **", self.site()))
            else:
                kk = self.eval(k, sc)
                d.set(kk, self.eval(v, sc))
        return d

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        self.cur = e
        return self.binop(BINOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        self.cur = e
        if isinstance(e.op, ast.Not):
            if isinstance(v, SV) and v.wit is NOWIT and self.lib.known_truth(v.term) is None and not self.is_array(v):
                t = v.term
                return SV(t.a[0] if t.op == "not" else mk("not", t), "bool")
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if is_concrete(v):
                if v is None or isinstance(v, (str, tuple)):
                    self.throw(TypeError, "bad operand type for unary -")
                r = -v
                return NPF(r) if isinstance(v, NPF) else r
            if isinstance(v, SV):
                w = NOWIT
                if v.wit is not NOWIT and isinstance(v.wit, (int, float)):
                    w = -v.wit
                return SV(mk("un", "-", v.term), v.kind, wit=w, length=v.length, nd=v.nd)
            return self.unk("neg")
        if isinstance(e.op, ast.Invert):
            if isinstance(v, SV):
                return SV(v.term.a[0] if v.term.op == "not" else mk("not", v.term), v.kind, length=v.length, nd=v.nd)
            if isinstance(v, int):
                return ~v
        if isinstance(e.op, ast.UAdd):
            return v
        return self.unk("unary")

    def e_BoolOp(self, e, sc):
        v = None
        for x in e.values:
            v = self.eval(x, sc)
            self.cur = x
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if not t:
                    return v if not (isinstance(v, SV) and v.kind == "bool") else False
            elif t:
                return v if not (isinstance(v, SV) and v.kind == "bool") else True
        return v

    def e_Compare(self, e, sc):
        left = self.eval(e.left, sc)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, sc)
            self.cur = e
            res = self.compare(CMPOPS[type(op)], left, right)
            if len(e.ops) > 1 and r is not e.comparators[-1]:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_IfExp(self, e, sc):
        v = self.eval(e.test, sc)
        self.cur = e.test
        return self.eval(e.body if self.truth(v) else e.orelse, sc)

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc)

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s.func is None and s.parent is not None and s.yields == "comp":
            s = s.parent
        self.assign_name(s, e.target.id, v)
        return v

    def e_JoinedStr(self, e, sc):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, sc)
                spec = ""
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, sc)
                if isinstance(spec, SV):
                    w = NOWIT
                    if spec.wit is not NOWIT and (not isinstance(v, SV) or v.wit is not NOWIT) and is_concrete(v.wit if isinstance(v, SV) else v):
                        try:
                            w = format(v.wit if isinstance(v, SV) else v, spec.wit)
                        except (ValueError, TypeError) as ex:
                            self.throw(type(ex), str(ex))
                    parts.append(SV(mk("fmt", spec.term, to_term(v)), "str", wit=w))
                    continue
                parts.append(self.fmt(v, spec, p.conversion))
        self.cur = e
        return self.cat(parts)

    def e_FormattedValue(self, e, sc):
        return self.fmt(self.eval(e.value, sc), "", e.conversion)

    def e_Starred(self, e, sc):
        return self.eval(e.value, sc)

    def e_Await(self, e, sc):
        return self.eval(e.value, sc)

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value is not None else None
        s = sc
        while s.yields is None or s.yields == "comp":
            s = s.parent
        s.yields.append(v)
        if len(s.yields) > 400:
            raise GenStop
        return None

    def e_YieldFrom(self, e, sc):
        s = sc
        while s.yields is None or s.yields == "comp":
            s = s.parent
        for x in self.iterate(self.eval(e.value, sc)):
            s.yields.append(x)
            if len(s.yields) > 400:
                raise GenStop
        return None

    def comp(self, gens, sc, emit):
        def rec(i, s):
            if i == len(gens):
                emit(s)
                return
            g = gens[i]
            it = self.eval(g.iter, s)
            self.cur = g.iter
            for x in self.iterate(it):
                self.assign(g.target, x, s)
                ok = True
                for cond in g.ifs:
                    v = self.eval(cond, s)
                    self.cur = cond
                    if not self.truth(v):
                        ok = False
                        break
                if ok:
                    rec(i + 1, s)

        s = Scope(sc, sc.globs, None)
        s.yields = "comp"
        s.func = sc.func
        rec(0, s)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        return VList(out)

    def e_GeneratorExp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        return VIter(out)

    def e_SetComp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda s: out.append(self.eval(e.elt, s)))
        return VSet(out)

    def e_DictComp(self, e, sc):
        d = VDict()
        self.comp(e.generators, sc, lambda s: d.set(self.eval(e.key, s), self.eval(e.value, s)))
        return d

    def e_Call(self, e, sc):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = sc
            while s is not None and (s.func is None or s.func.cls is None):
                s = s.parent
            if s is not None:
                a = s.func.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return SuperObj(s.func.cls, s.vars[first])
        f = self.eval(e.func, sc)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.eval(x.value, sc)))
            else:
                args.append(self.eval(x, sc))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, sc)
                if isinstance(m, VDict):
                    for kk, vv in m.items():
                        if kk in kw:
                            self.throw(TypeError, f"multiple values for keyword {kk}")
                        kw[kk] = vv
                else:
                    self.undecided.append(("**kwargs", self.site()))
            else:
                if k.arg in kw:
                    self.throw(TypeError, f"multiple values for keyword {k.arg}")
                kw[k.arg] = self.eval(k.value, sc)
        self.cur = e
        return self.call(f, args, kw)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, (Func,)):
                return self.call_func(f.func, [f.self, *args], kw)
            return self.call(f.func, [f.self, *args], kw)
        if isinstance(f, Native):
            return f.fn(args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(f.path, args, kw)
        if isinstance(f, ExtMeth):
            return self.lib.call_meth(f.obj, f.name, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExtObj("exception", self.fresh("exc"), {"exc": f, "args": tuple(args)})
        if isinstance(f, SV):
            r = SV(mk("apply", f.term, tuple(to_term(a) for a in args),
                      tuple((k, to_term(v)) for k, v in sorted(kw.items()))), self.lib.apply_kind(f, args))
            if r.kind == "array" and len(args) == 1 and f.term.op == "call" and f.term.a[0].endswith("interp1d"):
                # one value per requested point
                x = args[0]
                n = len(x.items) if isinstance(x, VList) else len(x) if isinstance(x, tuple) else x.length if isinstance(x, SV) else None
                if isinstance(n, int):
                    r.length = n
                    r.nd = 1
            return r
        if isinstance(f, Inst):
            m, _ = f.cls.lookup("__call__")
            if m is not None:
                return self.call(self.getattr(f, "__call__"), args, kw)
        if isinstance(f, Deco):
            return self.call(f.func, args, kw)
        if isinstance(f, ExtObj):
            return self.lib.call_meth(f, "__call__", args, kw)
        if f is None or is_concrete(f):
            self.throw(TypeError, f"{type(f).__name__} object is not callable")
        return self.unk(f"call {f!r}")

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.throw(TypeError, f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        for n, v in zip(pos, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n in kw:
                if n in out:
                    self.throw(TypeError, f"{f.name}() got multiple values for argument {n}")
                out[n] = kw.pop(n)
            elif n not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.throw(TypeError, f"{f.name}() missing required argument {n}")
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif d is not None:
                out[x.arg] = d[0]
            else:
                self.throw(TypeError, f"{f.name}() missing keyword argument {x.arg}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = VDict(kw.items())
        elif kw:
            self.throw(TypeError, f"{f.name}() got an unexpected keyword argument {next(iter(kw))}")
        return out

    def call_func(self, f, args, kw):
        hook = self.lib.func_hooks.get(f.qual)
        if hook is not None:
            return hook(f, args, kw)
        memokey = None
        if f.attrs.get("memo"):
            try:
                memokey = (id(f), tuple(self.hashkey(a) for a in args), tuple((k, self.hashkey(v)) for k, v in sorted(kw.items())))
            except TypeError:
                self.throw(TypeError, "unhashable type")
            if memokey in self.memo:
                return self.memo[memokey]
        bound = self.bind(f, args, kw)
        sc = Scope(f.scope, f.globs, f)
        sc.vars = bound
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            return self.unk("recursion")
        self.calls[f.qual] += 1
        old = (self.cur, self.curmod)
        self.curmod = f.mod
        self.stack.append(f)
        n = len(self.stack)
        self.event("call", func=f, args=bound)
        res = None
        try:
            if isinstance(f.node, ast.Lambda):
                res = self.eval(f.node.body, sc)
            elif f.is_gen:
                sc.yields = []
                try:
                    self.exec_block(f.node.body, sc)
                except (ReturnEx, GenStop):
                    pass
                res = VIter(sc.yields)
                if f.attrs.get("ctx"):
                    res = ExtObj("genctx", self.fresh("ctx"),
                                 {"value": sc.yields[0] if sc.yields else None, "exit": lambda: None})
            else:
                try:
                    self.exec_block(f.node.body, sc)
                except ReturnEx as r:
                    res = r.v
        except PyExc as e:
            if e.stack is None:
                e.stack = tuple(x.qual for x in self.stack)
            raise
        finally:
            del self.stack[n - 1:]
            self.cur, self.curmod = old
            self.depth -= 1
        self.event("return", func=f, value=res)
        if memokey is not None:
            self.memo[memokey] = res
        return res

    def hashkey(self, v):
        if isinstance(v, (VList, VDict, VSet, VFrame)):
            raise TypeError
        if isinstance(v, Inst):
            h, _ = v.cls.lookup("__hash__")
            if h is None and v.cls.has_ext_base(lambda p: p.endswith("BaseModel")):
                raise TypeError
            if h is not None:
                return ("h", self.hashkey(self.call(self.getattr(v, "__hash__"), [], {})))
            return id(v)
        if isinstance(v, SV) and self.is_array(v):
            raise TypeError
        return key_of(v)

    def instantiate(self, k, args, kw):
        if k.members is not None:
            for m in k.members.values():
                if args and is_concrete(args[0]) and m.value == args[0]:
                    return m
                if args and args[0] is m:
                    return m
                if args and isinstance(args[0], SV) and args[0].wit is not NOWIT and m.value == args[0].wit:
                    return m
            self.throw(ValueError, "not a valid enum member")
        o = Inst(k, None)
        new, _ = k.lookup("__init__")
        if new is not None:
            self.call_func(new, [o, *args], kw) if isinstance(new, Func) else self.call(new, [o, *args], kw)
        elif k.has_ext_base(lambda p: p.endswith("BaseModel")):
            if args:
                self.throw(TypeError, "BaseModel.__init__() takes 1 positional argument")
            self.lib.model_init(o, kw)
        elif k.dataclass:
            self.lib.dataclass_init(o, args, kw)
        elif any(isinstance(b, type) and issubclass(b, BaseException) for b in k.mro()):
            o.f["args"] = tuple(args)
        elif k.has_ext_base(lambda p: p.split(".")[-1] == "NamedTuple"):
            names = [n for n in k.order]
            for n, v in zip(names, args):
                o.f[n] = v
            for n, v in kw.items():
                o.f[n] = v
            for n in names:
                if n not in o.f and n in k.ns:
                    o.f[n] = k.ns[n]
            o.meta = "namedtuple"
        elif args or kw:
            if not any(isinstance(b, Ext) for b in k.mro()):
                self.throw(TypeError, f"{k.name}() takes no arguments")
        return o

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Inst):
            return self.inst_getattr(o, name)
        if isinstance(o, SuperObj):
            return self.super_getattr(o, name)
        if isinstance(o, Cls):
            v, k = o.lookup(name)
            if k is not None:
                return self.bind_cls(v, o)
            r = self.lib.cls_attr(o, name)
            if r is not None:
                return r
            self.throw(AttributeError, f"type object {o.name} has no attribute {name}")
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            if self.modpath(o.name + "." + name):
                return self.load(o.name + "." + name)
            self.throw(AttributeError, f"module {o.name} has no attribute {name}")
        if isinstance(o, Ext):
            return self.lib.ext_attr(o.path, name)
        if isinstance(o, EnumMember):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
            v, k = o.cls.lookup(name)
            if isinstance(v, Deco) and v.kind == "property":
                return self.call(v.func, [o], {})
            if isinstance(v, Func):
                return Bound(v, o)
            if k is not None:
                return self.bind_cls(v, o.cls)
            if isinstance(o.value, str):
                return self.lib.attr(o.value, name)
            self.throw(AttributeError, name)
        return self.lib.attr(o, name)

    def bind_cls(self, v, k):
        if isinstance(v, Deco):
            if v.kind == "classmethod":
                return Bound(v.func, k)
            if v.kind == "staticmethod":
                return v.func
            if v.kind in ("field_validator", "model_validator"):
                return Bound(self.unwrap_cm(v.func), k)
            return v
        return v

    def unwrap_cm(self, f):
        return f.func if isinstance(f, Deco) else f

    def inst_getattr(self, o, name):
        v, k = o.cls.lookup(name)
        if isinstance(v, Deco):
            if v.kind == "property":
                return self.call(v.func, [o], {})
            if v.kind == "cached_property":
                ck = "cached:" + name
                if ck not in o.f:
                    o.f[ck] = self.call(v.func, [o], {})
                return o.f[ck]
        if name in o.f:
            if self.reads is not None:
                self.reads.append((o, name, o.f[name], self.site(), tuple(f.qual for f in self.stack)))
            return o.f[name]
        if name in o.priv:
            return o.priv[name]
        if isinstance(v, Deco):
            if v.kind == "classmethod":
                return Bound(v.func, o.cls)
            if v.kind == "staticmethod":
                return v.func
            return Bound(self.unwrap_cm(v.func), o)
        if isinstance(v, Func):
            return Bound(v, o)
        if k is not None and not isinstance(v, FieldInfo):
            return v
        r = self.lib.inst_attr(o, name)
        if r is not None:
            return r
        ga, _ = o.cls.lookup("__getattr__")
        if ga is not None:
            return self.call(Bound(ga, o), [name], {})
        if any(isinstance(b, Ext) and not b.path.endswith(("BaseModel", "object", "ABC", "Enum")) for b in o.cls.mro()):
            return self.unk("attr of external base")
        self.throw(AttributeError, f"{o.cls.name} object has no attribute {name}")

    def super_getattr(self, o, name):
        obj = o.obj
        k = obj.cls if isinstance(obj, (Inst, EnumMember)) else obj
        mro = k.mro()
        i = mro.index(o.cls) + 1
        for b in mro[i:]:
            if isinstance(b, Cls) and name in b.ns:
                v = b.ns[name]
                if isinstance(v, Deco):
                    if v.kind == "property":
                        return self.call(v.func, [obj], {})
                    if v.kind == "classmethod":
                        return Bound(v.func, k)
                    return v.func
                if isinstance(v, Func):
                    return Bound(v, obj)
                return v
            if isinstance(b, Ext):
                return self.lib.super_ext(b, obj, name)
            if isinstance(b, type):
                return Native("super", lambda a, kw: None)
        if name == "__init__":
            return Native("object.__init__", lambda a, kw: None)
        if name == "__setattr__":
            return Native("object.__setattr__", lambda a, kw: self.setattr(obj, a[0], a[1], raw=True))
        return self.lib.super_ext(Ext("object"), obj, name)

    def setattr(self, o, name, v, raw=False):
        if isinstance(name, SV) and name.wit is not NOWIT:
            name = name.wit
        if isinstance(o, Inst):
            if not raw:
                sa, _ = o.cls.lookup("__setattr__")
                if sa is not None:
                    self.call(Bound(sa, o), [name, v], {})
                    return
            d, _ = o.cls.lookup(name)
            if isinstance(d, Deco) and d.kind == "property":
                st = d.meta.get("setter")
                if st is None:
                    self.throw(AttributeError, f"property {name} has no setter")
                self.call(st, [o, v], {})
                return
            if o.cls.has_ext_base(lambda p: p.endswith("BaseModel")):
                if name.startswith("_"):
                    self.event("setattr", obj=o, name=name, value=v, owner=o.owner, old=o.priv.get(name))
                    o.priv[name] = v
                    return
                if name not in self.lib.model_fields(o.cls):
                    self.throw(ValueError, f"{o.cls.name} object has no field {name}")
                v = self.lib.validate_assignment(o, name, v)
                o.fields_set.add(name)
            self.event("setattr", obj=o, name=name, value=v, owner=o.owner, old=o.f.get(name), new=name not in o.f)
            o.f[name] = v
            return
        if isinstance(o, Cls):
            self.event("setattr", obj=o, name=name, value=v, owner=f"class {o.name}", old=o.ns.get(name), new=name not in o.ns)
            o.ns[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Mod):
            o.ns[name] = v
            return
        self.lib.setattr(o, name, v)

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        return self.lib.getitem(o, k)

    def setitem(self, o, k, v):
        self.lib.setitem(o, k, v)

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, expect=None):
        """python iterator over the abstract elements of v"""
        it, _ = self.iter2(v, expect)
        return it

    def iter2(self, v, expect=None):
        """(iterator, length_known)"""
        if isinstance(v, VList):
            return _live(v), True
        if isinstance(v, tuple):
            return iter(v), True
        if isinstance(v, str):
            return iter(v), True
        if isinstance(v, VDict):
            return iter(v.keys()), True
        if isinstance(v, VSet):
            vals = list(v.d.values())
            if len(vals) > 1:
                self.event("set-iter", n=len(vals))
            if self.set_order < 0:
                vals.reverse()
            return iter(vals), True
        if isinstance(v, VIter):
            return v.it, not v.unbounded
        if isinstance(v, VFrame):
            return iter(list(v.cols)), True
        if isinstance(v, VRow):
            return iter(list(v.cols.values())), True
        if isinstance(v, VGrid):
            return iter([VList(r, kind="axrow") for r in v.rows]), True
        if isinstance(v, Cls) and v.members is not None:
            return iter(list(dict.fromkeys(v.members.values()))), True
        if isinstance(v, Inst):
            if getattr(v, "meta", None) == "namedtuple":
                return iter(list(v.f.values())), True
            m, _ = v.cls.lookup("__iter__")
            if m is not None:
                return self.iter2(self.call(Bound(m, v), [], {}))
            m, _ = v.cls.lookup("__next__")
            if m is None and v.cls.has_ext_base(lambda p: p.endswith("BaseModel")):
                return iter([(n, x) for n, x in v.f.items()]), True
            self.throw(TypeError, f"{v.cls.name} object is not iterable")
        if isinstance(v, SV):
            if v.term.op == "T" and v.term.a[0].op == "frame":
                return iter([SV(t, "array", length=getattr(v.base, "nrows", None), nd=1) for t in v.term.a[0].a[1]]), True
            if v.wit is not NOWIT and isinstance(v.wit, str):
                return iter([SV(mk("item", v.term, c(i)), "str", wit=ch) for i, ch in enumerate(v.wit)]), True
            n = expect if expect is not None else self.lib.conc_len(v)
            if n is not None:
                return (self.getitem(v, i) for i in range(n)), True
            if v.kind == "scalar" or v.kind == "bool":
                self.throw(TypeError, "scalar is not iterable")
            return (SV(mk("elem", v.term, i), self.lib.elem_kind(v), nd=(v.nd - 1 if v.nd else None)) for i in range(2)), False
        if isinstance(v, range):
            return iter(v), True
        if v is None or isinstance(v, (int, float)):
            self.throw(TypeError, f"{type(v).__name__} object is not iterable")
        if isinstance(v, (ExtObj, ExtMeth)):
            return self.lib.iter_ext(v)
        self.undecided.append((f"iterate {type(v).__name__}", self.site()))
        return iter([self.unk("element")]), False

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if isinstance(a, ExtMeth):
            a = self.lib.force(a)
        if isinstance(b, ExtMeth):
            b = self.lib.force(b)
        # strings
        if op == "%" and (isinstance(a, str) or (isinstance(a, SV) and a.kind == "str")):
            return self.percent(a, b)
        if op == "+" and (isinstance(a, str) or (isinstance(a, SV) and a.kind == "str")):
            if isinstance(b, str) or (isinstance(b, SV) and b.kind in ("str", None, "obj")):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return self.cat([a, b])
            self.throw(TypeError, "can only concatenate str")
        if op == "+" and isinstance(b, str):
            if isinstance(a, SV) and a.kind in (None, "obj"):
                return self.cat([a, b])
            self.throw(TypeError, "unsupported operand +")
        if is_concrete(a) and is_concrete(b):
            if a is None or b is None:
                self.throw(TypeError, f"unsupported operand type(s) for {op}: NoneType")
            try:
                if op == "**" and isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(b) > 4000:
                    return self.unk("pow")
                r = PYBIN[op](a, b)
            except ZeroDivisionError:
                if isinstance(a, NPF) or isinstance(b, NPF):
                    if op in ("/", "**"):
                        return NPF(math.nan if a == 0 and op == "/" else math.copysign(math.inf, a))
                    return NPF(math.nan)
                self.throw(ZeroDivisionError, "division by zero")
            except OverflowError:
                return float("inf")
            except (TypeError, ValueError) as ex:
                self.throw(type(ex), str(ex))
            if isinstance(r, float) and (isinstance(a, NPF) or isinstance(b, NPF)):
                return NPF(r)
            return r
        if a is None or b is None:
            x = b if a is None else a
            if op == "|" and (isinstance(x, (Cls, Ext, Native, type, tuple, UnionT)) or isinstance(x, ExtObj) and x.kind == "generic"):
                return self.union(a, b)
            self.throw(TypeError, f"unsupported operand type(s) for {op}: NoneType")
        if op == "|" and (isinstance(a, (Cls, Ext, Native, type, UnionT)) or isinstance(a, ExtObj) and a.kind == "generic"):
            return self.union(a, b)
        if isinstance(a, VList) and isinstance(b, VList) and a.kind == "list" and b.kind == "list":
            if op == "+":
                return VList(a.items + b.items)
            self.throw(TypeError, f"unsupported operand {op} for lists")
        if isinstance(a, VList) and a.kind == "list" and op == "*" and isinstance(b, int):
            return VList(a.items * b)
        if isinstance(b, VList) and b.kind == "list" and op == "*" and isinstance(a, int):
            return VList(b.items * a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "*":
            return a * b
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)) and op == "+":
            if isinstance(a, tuple) != isinstance(b, tuple):
                self.throw(TypeError, "can only concatenate same sequence types")
        if isinstance(a, VDict) and isinstance(b, VDict):
            if op == "|":
                d = VDict(a.items())
                for k, v in b.items():
                    d.set(k, v)
                return d
            self.throw(TypeError, f"unsupported operand {op} for dict")
        if isinstance(a, VSet) and isinstance(b, VSet):
            if op == "|":
                return VSet(list(a.d.values()) + list(b.d.values()))
            if op == "&":
                return VSet([x for k, x in a.d.items() if k in b.d])
            if op == "-":
                return VSet([x for k, x in a.d.items() if k not in b.d])
            if op == "^":
                return VSet([x for k, x in a.d.items() if k not in b.d] + [x for k, x in b.d.items() if k not in a.d])
        if isinstance(a, Inst):
            m, _ = a.cls.lookup(f"__{DUNDER.get(op, '?')}__")
            if m is not None:
                return self.call(Bound(m, a), [b], {})
        if isinstance(b, Inst):
            m, _ = b.cls.lookup(f"__r{DUNDER.get(op, '?')}__")
            if m is not None:
                return self.call(Bound(m, b), [a], {})
        if isinstance(a, ExtObj) and a.kind == "Path" and op == "/":
            return self.lib.new_path(a, b)
        if isinstance(a, (Inst, Func, Cls)) or isinstance(b, (Inst, Func, Cls)):
            self.throw(TypeError, f"unsupported operand {op}")
        if isinstance(a, VFrame) or isinstance(b, VFrame):
            return self.lib.frame_binop(op, a, b)
        if isinstance(a, (VDict, VSet)) or isinstance(b, (VDict, VSet)):
            if isinstance(a, (SV, ExtObj)) or isinstance(b, (SV, ExtObj)):
                return self.unk("mixed operands")
            self.throw(TypeError, f"unsupported operand {op}")
        # abstract arithmetic
        return self.lib.arith(op, a, b)

    def union(self, a, b):
        xs = []
        for x in (a, b):
            xs.extend(x.args if isinstance(x, UnionT) else [x])
        return UnionT(xs)

    def compare(self, op, a, b):
        if isinstance(a, ExtMeth):
            a = self.lib.force(a)
        if isinstance(b, ExtMeth):
            b = self.lib.force(b)
        if op == "is" or op == "is not":
            r = self.identical(a, b)
            return r if op == "is" else not r
        if op in ("in", "not in"):
            r = self.contains(b, a)
            if op == "in":
                return r
            if isinstance(r, SV):
                return SV(mk("not", r.term), "bool")
            return not r
        if is_concrete(a) and is_concrete(b):
            try:
                return PYCMP[op](a, b)
            except TypeError as ex:
                self.throw(TypeError, str(ex))
        if op in ("==", "!="):
            r = self.equal(a, b)
            if isinstance(r, bool):
                return r if op == "==" else not r
            if op == "!=":
                return SV(mk("not", r.term), r.kind, wit=(NOWIT if r.wit is NOWIT else not r.wit), length=r.length, nd=r.nd)
            return r
        if a is None or b is None:
            self.throw(TypeError, f"'{op}' not supported with NoneType")
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)) and not (
            isinstance(a, VList) and a.kind != "list"):
            xa = a.items if isinstance(a, VList) else list(a)
            xb = b.items if isinstance(b, VList) else list(b)
            for x, y in zip(xa, xb):
                if not self.truth(self.compare("==", x, y)):
                    return self.compare(op, x, y)
            return PYCMP[op](len(xa), len(xb))
        if isinstance(a, VSet) and isinstance(b, VSet):
            return {"<": set(a.d) < set(b.d), "<=": set(a.d) <= set(b.d), ">": set(a.d) > set(b.d), ">=": set(a.d) >= set(b.d)}[op]
        if isinstance(a, Inst) or isinstance(b, Inst):
            dn = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op]
            if isinstance(a, Inst):
                m, _ = a.cls.lookup(f"__{dn}__")
                if m is not None:
                    return self.call(Bound(m, a), [b], {})
            self.throw(TypeError, f"'{op}' not supported")
        if (isinstance(a, (VDict, EnumMember, Cls, Func)) or isinstance(b, (VDict, EnumMember, Cls, Func))):
            self.throw(TypeError, f"'{op}' not supported")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and isinstance(y, SV) and (self.is_array(y) or y.kind == "scalar"):
                self.throw(TypeError, "comparison of str and number")
        if isinstance(a, VFrame) or isinstance(b, VFrame):
            return self.lib.frame_cmp(op, a, b)
        return self.lib.cmp(op, a, b)

    def identical(self, a, b):
        if isinstance(a, SV) or isinstance(b, SV):
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SV) and x.wit is not NOWIT and (y is None or isinstance(y, bool)):
                    return x.wit is y
            return False
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if is_concrete(a) and is_concrete(b):
            if type(a) is type(b) and not isinstance(a, tuple):
                return a == b if isinstance(a, (int, str, bool)) or a is None else a is b
            return False
        return a is b

    def equal(self, a, b):
        """bool or SV"""
        if a is b and not isinstance(a, (SV, VFrame)):
            return True
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, EnumMember):
                    if isinstance(y, EnumMember):
                        return x is y
                    if isinstance(y, str) and x.cls.has_ext_base(lambda p: p in ("str", "enum.StrEnum")) or (
                        isinstance(y, str) and str in x.cls.mro()):
                        return x.value == y
                    if isinstance(y, SV):
                        if y.wit is not NOWIT:
                            return y.wit is x
                        return False
                    return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                m, _ = x.cls.lookup("__eq__")
                if m is not None:
                    return self.call(Bound(m, x), [y], {})
                if isinstance(y, Inst) and x.cls.has_ext_base(lambda p: p.endswith("BaseModel")):
                    if x.cls is not y.cls:
                        return False
                    res = True
                    for n in x.f:
                        r = self.equal(x.f[n], y.f.get(n))
                        if isinstance(r, SV):
                            r = self.truth(r)
                        if not r:
                            return False
                    return res
                return x is y
        if isinstance(a, SV) or isinstance(b, SV):
            if a is None or b is None:
                return False
            if isinstance(a, (VDict, VSet, Cls, Func, Ext)) or isinstance(b, (VDict, VSet, Cls, Func, Ext)):
                return False
            return self.lib.cmp("==", a, b)
        if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
            if isinstance(a, VList) and a.kind == "index" or isinstance(b, VList) and b.kind == "index":
                return self.lib.cmp("==", a, b)
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            xa = a.items if isinstance(a, VList) else list(a)
            xb = b.items if isinstance(b, VList) else list(b)
            if len(xa) != len(xb):
                return False
            for x, y in zip(xa, xb):
                r = self.equal(x, y)
                if isinstance(r, SV):
                    r = self.truth(r)
                if not r:
                    return False
            return True
        if isinstance(a, VList) and a.kind == "index" or isinstance(b, VList) and b.kind == "index":
            return self.lib.cmp("==", a, b)
        if isinstance(a, VDict) and isinstance(b, VDict):
            if set(a.d) != set(b.d):
                return False
            return all(self.truth(self.equal(a.d[k][1], b.d[k][1])) for k in a.d)
        if isinstance(a, VSet) and isinstance(b, VSet):
            return set(a.d) == set(b.d)
        if isinstance(a, VFrame) or isinstance(b, VFrame):
            return self.lib.frame_cmp("==", a, b)
        if is_concrete(a) and is_concrete(b):
            return a == b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        return a is b

    def contains(self, cont, x):
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            if isinstance(x, SV) and x.wit is not NOWIT and isinstance(x.wit, str):
                return x.wit in cont
            if x is None:
                self.throw(TypeError, "'in <string>' requires string as left operand")
        if isinstance(cont, VDict):
            return cont.has(x)
        if isinstance(cont, VSet):
            return key_of(x) in cont.d
        if isinstance(cont, (VList, tuple)):
            items = cont.items if isinstance(cont, VList) else cont
            for y in items:
                if y is x:
                    return True
            for y in items:
                r = self.equal(y, x)
                if isinstance(r, SV):
                    if r.wit is not NOWIT:
                        r = bool(r.wit)
                    else:
                        r = self.truth(r)
                if r:
                    return True
            return False
        if isinstance(cont, VFrame):
            return key_of(x) in cont.cols
        if isinstance(cont, VRow):
            return key_of(x) in cont.cols
        if isinstance(cont, VIter):
            return self.contains(VList(list(cont.it)), x)
        if isinstance(cont, Cls) and cont.members is not None:
            return x in cont.members.values()
        if isinstance(cont, Inst):
            m, _ = cont.cls.lookup("__contains__")
            if m is not None:
                return self.call(Bound(m, cont), [x], {})
            return self.contains(VList(list(self.iterate(cont))), x)
        if cont is None or isinstance(cont, (int, float, bool)):
            self.throw(TypeError, f"argument of type {type(cont).__name__} is not iterable")
        if isinstance(cont, SV):
            if cont.wit is not NOWIT and isinstance(cont.wit, str):
                xx = x.wit if isinstance(x, SV) else x
                if isinstance(xx, str):
                    return xx in cont.wit
            if cont.term.op == "list":
                xt = to_term(x)
                if xt in cont.term.a[0]:
                    return True
            return SV(mk("cmp", "in", to_term(x), cont.term), "bool")
        return SV(mk("cmp", "in", to_term(x), to_term(cont)), "bool")

    # ------------------------------------------------------------------ strings
    def cat(self, parts):
        """concatenate string pieces (python strings and symbolic strings)"""
        out = []
        wit = ""
        for p in parts:
            if isinstance(p, SV):
                if wit is not NOWIT:
                    wit = wit + p.wit if p.wit is not NOWIT and isinstance(p.wit, str) else NOWIT
                if p.term.op == "cat":
                    out.extend(p.term.a[0])
                else:
                    out.append(p.term)
            else:
                if wit is not NOWIT:
                    wit = wit + p
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str):
                if not p:
                    continue
                if merged and isinstance(merged[-1], str):
                    merged[-1] += p
                    continue
            merged.append(p)
        if not merged:
            return ""
        if len(merged) == 1:
            if isinstance(merged[0], str):
                return merged[0]
            for p in parts:
                if isinstance(p, SV) and p.term is merged[0]:
                    return p
        return SV(mk("cat", tuple(merged)), "str", wit=wit)

    def fmt(self, v, spec="", conv=-1):
        if isinstance(v, ExtMeth):
            v = self.lib.force(v)
        if conv == 114:
            v = self.lib.repr_(v)
        if isinstance(v, Inst) and not spec:
            for dn in ("__format__", "__str__", "__repr__"):
                m, _ = v.cls.lookup(dn)
                if m is not None:
                    return self.call(Bound(m, v), [""] if dn == "__format__" else [], {})
        if is_concrete(v):
            if v is None and spec:
                self.throw(TypeError, "unsupported format string passed to NoneType.__format__")
            try:
                return format(v, spec)
            except (ValueError, TypeError) as ex:
                self.throw(type(ex), str(ex))
        if isinstance(v, (VList, VDict, VSet, tuple)):
            try:
                return format(str(deepconc(v)), spec)
            except (Unsupported, ValueError):
                pass
        if isinstance(v, EnumMember):
            return f"{v.cls.name}.{v.name}"
        if isinstance(v, SV):
            if v.kind == "str" and not spec:
                return v
            if v.wit is not NOWIT:
                try:
                    return SV(mk("fmt", spec, v.term), "str", wit=format(v.wit, spec))
                except (ValueError, TypeError) as ex:
                    self.throw(type(ex), str(ex))
        return SV(mk("fmt", spec if isinstance(spec, str) else to_term(spec), to_term(v)), "str")

    PCT = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(\.\d+)?[hlL]?([diouxXeEfFgGcrsa%])")

    def percent(self, tpl, arg):
        if isinstance(arg, tuple):
            args = list(arg)
        elif isinstance(arg, VDict):
            args = None
        else:
            args = [arg]
        parts = tpl.term.a[0] if isinstance(tpl, SV) and tpl.term.op == "cat" else (
            (tpl,) if isinstance(tpl, str) else (tpl.term,))
        if isinstance(tpl, SV):
            user = [p for p in parts if isinstance(p, Term)]
            self.event("format-template", parts=tuple(user))
            # a computed field width: the value only pads, any width stands for it
            merged, ps = [], list(parts)
            while ps:
                q = ps.pop(0)
                if isinstance(q, str) and re.search(r"(?<!%)(?:%%)*%[#0\- +]*$", q) and len(ps) > 1 and isinstance(ps[0], Term) and isinstance(ps[1], str) and re.match(r"(\.\d+)?[sdfeg]", ps[1]):
                    ps[1] = q + "7" + ps[1]
                    ps.pop(0)
                    continue
                merged.append(q)
            parts = tuple(merged)
        out = []
        n = 0
        for p in parts:
            if isinstance(p, Term):
                out.append(SV(p, "str"))
                continue
            i = 0
            while i < len(p):
                j = p.find("%", i)
                if j < 0:
                    out.append(p[i:])
                    break
                out.append(p[i:j])
                m = self.PCT.match(p, j)
                if not m:
                    self.throw(ValueError, f"unsupported format character in {p[j:j + 12]!r}")
                i = m.end()
                if m.group(5) == "%":
                    out.append("%")
                    continue
                if m.group(1):
                    if not isinstance(arg, VDict):
                        self.throw(TypeError, "format requires a mapping")
                    v = arg.get(m.group(1))
                else:
                    if args is None:
                        args = [arg]
                    if n >= len(args):
                        self.throw(TypeError, "not enough arguments for format string")
                    v = args[n]
                    n += 1
                ty = m.group(5)
                spec = (m.group(2) or "") + (m.group(3) or "") + (m.group(4) or "")
                if isinstance(v, ExtMeth):
                    v = self.lib.force(v)
                if is_concrete(v) and not isinstance(v, tuple):
                    try:
                        out.append(("%" + spec + ty) % v)
                    except (TypeError, ValueError) as ex:
                        self.throw(type(ex), str(ex))
                elif ty in "sra" and not spec:
                    out.append(self.fmt(v))
                elif isinstance(v, SV):
                    if ty in "diouxXeEfFgG" and v.kind == "str":
                        self.throw(TypeError, "a real number is required, not str")
                    out.append(SV(mk("fmt", "%" + spec + ty, v.term), "str"))
                else:
                    out.append(self.fmt(v))
        if args is not None and n < len(args):
            self.throw(TypeError, "not all arguments converted during string formatting")
        return self.cat(out)

    def str_format(self, tpl, args, kw):
        if isinstance(tpl, SV):
            parts = tpl.term.a[0] if tpl.term.op == "cat" else (tpl.term,)
            self.event("format-template", parts=tuple(p for p in parts if isinstance(p, Term)))
        else:
            parts = (tpl,)
        out = []
        auto = 0
        for p in parts:
            if isinstance(p, Term):
                out.append(SV(p, "str"))
                continue
            try:
                pieces = list(string.Formatter().parse(p))
            except ValueError as ex:
                self.throw(ValueError, str(ex))
            for lit, field, spec, conv in pieces:
                out.append(lit)
                if field is None:
                    continue
                name = re.split(r"[.\[]", field)[0]
                if name == "":
                    if auto >= len(args):
                        self.throw(IndexError, "Replacement index out of range")
                    v = args[auto]
                    auto += 1
                elif name.isdigit():
                    if int(name) >= len(args):
                        self.throw(IndexError, "Replacement index out of range")
                    v = args[int(name)]
                else:
                    if name not in kw:
                        self.throw(KeyError, name)
                    v = kw[name]
                rest = field[len(name):]
                for mm in re.finditer(r"\.(\w+)|\[([^\]]+)\]", rest):
                    v = self.getattr(v, mm.group(1)) if mm.group(1) else self.getitem(v, int(mm.group(2)) if mm.group(2).isdigit() else mm.group(2))
                if spec and "{" in spec:
                    spec = self.str_format(spec, args[auto:], kw)
                out.append(self.fmt(v, spec or "", ord(conv) if conv else -1))
        return self.cat(out)


class GenStop(Exception):
    pass


class SuperObj:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class UnionT:
    def __init__(self, args):
        self.args = list(args)


def _live(v):
    i = 0
    while i < len(v.items):
        yield v.items[i]
        i += 1
        if i > 5000:
            return


_parse_cache = {}


def parse_file(p):
    if p not in _parse_cache:
        with open(p) as fh:
            _parse_cache[p] = ast.parse(fh.read(), p)
    return _parse_cache[p]


_yield_cache = {}


def _has_yield(fn):
    k = id(fn)
    if k not in _yield_cache:
        res = False
        stack = list(fn.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                res = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _yield_cache[k] = (res, fn)
    return _yield_cache[k][0]
