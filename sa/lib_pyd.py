"""Model classes: fields, coercion, validators, copies."""
from __future__ import annotations

import ast

from terms import mk, c
from values import *  # noqa: F403
from values import NOWIT, SV, FieldView, VFrame, VRow


class Bad(Exception):
    pass


class PydanticMixin:
    def call_pyd(self, path, args, kw):
        name = path.split(".")[-1]
        if name == "Field":
            d = args[0] if args else kw.get("default", ...)
            return FieldInfo(d, kw.get("default_factory"), **{k: v for k, v in kw.items() if k not in ("default", "default_factory")})
        if name == "PrivateAttr":
            d = args[0] if args else kw.get("default", ...)
            return FieldInfo(d, kw.get("default_factory"), private=True)
        if name in ("field_validator", "validator"):
            return Deco("deco-factory", None, k="field_validator", fields=tuple(args), mode=kw.get("mode", "after"))
        if name in ("model_validator", "root_validator"):
            return Deco("deco-factory", None, k="model_validator", mode=kw.get("mode", args[0] if args else "after"))
        if name in ("field_serializer", "model_serializer"):
            return Deco("deco-factory", None, k="serializer")
        if name == "ConfigDict":
            return VDict(kw.items())
        if name == "computed_field":
            return ExtObj("decorator", "computed")
        if name == "ValidationError":
            self.I.throw(TypeError, "No constructor defined for ValidationError")
        return self.I.unk("pydantic." + name)

    # ------------------------------------------------------------------ class information
    def is_model(self, k):
        return isinstance(k, Cls) and k.has_ext_base(lambda p: p.endswith("BaseModel"))

    def model_fields(self, k):
        if k in self._fields_cache:
            return self._fields_cache[k]
        out = {}
        for b in reversed([x for x in k.mro() if isinstance(x, Cls)]):
            for n in b.order:
                if n.startswith("_") or n == "model_config":
                    continue
                an = b.ann[n]
                if "ClassVar" in ast.dump(an):
                    continue
                d = b.ns.get(n, ...)
                if not isinstance(d, FieldInfo):
                    d = FieldInfo(d)
                out[n] = (b, an, d)
            for n, v in b.ns.items():  # re-declared default without annotation is not allowed by pydantic
                if n in out and n not in b.ann and not isinstance(v, (Func, Deco)):
                    bb, an, _ = out[n]
                    out[n] = (bb, an, v if isinstance(v, FieldInfo) else FieldInfo(v))
        self._fields_cache[k] = out
        return out

    def model_conf(self, k, name, default=None):
        for b in k.mro():
            if isinstance(b, Cls) and "model_config" in b.ns:
                v = b.ns["model_config"]
                if isinstance(v, VDict) and v.has(name):
                    return v.get(name)
        return default

    def privates(self, k):
        out = {}
        for b in reversed([x for x in k.mro() if isinstance(x, Cls)]):
            for n in list(b.order) + [x for x in b.ns if x not in b.order]:
                if not n.startswith("_") or n.startswith("__"):
                    continue
                v = b.ns.get(n, ...)
                if isinstance(v, (Func, Deco)):
                    continue
                out[n] = v if isinstance(v, FieldInfo) else FieldInfo(v)
        return out

    def validators(self, k, kind):
        out = {}
        for b in reversed([x for x in k.mro() if isinstance(x, Cls)]):
            for n, v in b.ns.items():
                if isinstance(v, Deco) and v.kind == kind:
                    out[n] = v
                elif n in out and isinstance(v, (Func, Deco)):
                    del out[n]
        return list(out.values())

    # ------------------------------------------------------------------ coercion
    def ann_type(self, owner, node):
        from interp import Scope

        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            node = ast.parse(node.value, mode="eval").body
        old = (self.I.cur, self.I.curmod)
        self.I.curmod = owner.mod
        try:
            return self.I.eval(node, Scope(owner.scope, owner.mod.ns))
        except PyExc:
            return Ext("typing.Any")
        finally:
            self.I.cur, self.I.curmod = old

    def coerce(self, v, t):
        I = self.I
        if hasattr(t, "args") and type(t).__name__ == "UnionT":
            opts = t.args
            for o in opts:  # exact match first
                if self.exact(v, o):
                    return self.coerce(v, o)
            for o in opts:
                try:
                    return self.coerce(v, o)
                except Bad:
                    continue
            raise Bad
        if t is None:
            if v is None or (isinstance(v, SV) and v.wit is None):
                return v
            raise Bad
        if isinstance(v, SV) and v.wit is None:
            raise Bad
        if isinstance(v, ExtMeth):
            v = self.force(v)
        if isinstance(t, Native):
            n = t.name
            w = v.wit if isinstance(v, SV) else NOWIT
            if n == "str":
                if isinstance(v, str) or isinstance(w, str) or isinstance(v, SV) and (v.kind == "str" or v.kind is None and w is NOWIT):
                    return v
                if isinstance(v, EnumMember) and isinstance(v.value, str):
                    return v.value
                raise Bad
            if n in ("int", "float", "bool"):
                if isinstance(v, SV):
                    if v.kind in ("str", "array", "series", "callable") and (w is NOWIT or isinstance(w, str)):
                        raise Bad
                    if w is not NOWIT:
                        if n == "int" and isinstance(w, float) and w != int(w):
                            raise Bad
                        if n == "bool" and not (isinstance(w, bool) or w in (0, 1)):
                            raise Bad
                        if isinstance(w, str):
                            raise Bad
                    return v
                if isinstance(v, str):
                    try:
                        return float(v) if n == "float" else (int(v) if n == "int" else {"true": True, "false": False}[v.lower()])
                    except (ValueError, KeyError):
                        raise Bad from None
                if isinstance(v, (bool, int, float)):
                    if n == "float":
                        return float(v)
                    if n == "int":
                        if v != v or v in (float("inf"), float("-inf")) or v != int(v):
                            raise Bad
                        return int(v)
                    if isinstance(v, bool) or v in (0, 1):
                        return bool(v)
                raise Bad
            if n in ("list", "dict", "set", "frozenset", "tuple"):
                return self.coerce_container(v, n, None)
            return v
        if isinstance(t, ExtObj) and t.kind == "generic":
            b = t.meta["base"]
            a = t.meta["args"]
            a = a if isinstance(a, tuple) else (a,)
            if isinstance(b, Native):
                return self.coerce_container(v, b.name, a)
            last = b.path.split(".")[-1] if isinstance(b, Ext) else ""
            if last == "Optional":
                if v is None:
                    return v
                return self.coerce(v, a[0])
            if last == "Union":
                for o in sorted(a, key=lambda o: not self.exact(v, o)):
                    try:
                        return self.coerce(v, o)
                    except Bad:
                        pass
                raise Bad
            if last == "Literal":
                if any(self.I.truth(self.I.compare("==", v, x)) for x in a):
                    return v
                raise Bad
            if last in ("Annotated", "Final"):
                return self.coerce(v, a[0])
            if last in ("List", "Sequence", "Iterable"):
                return self.coerce_container(v, "list", a)
            if last in ("Dict", "Mapping"):
                return self.coerce_container(v, "dict", a)
            return v
        if isinstance(t, Cls):
            if t.members is not None:
                if isinstance(v, EnumMember) and v.cls is t:
                    return v
                for m in t.members.values():
                    w = v.wit if isinstance(v, SV) else v
                    if is_simple(w) and m.value == w:
                        return m
                raise Bad
            if isinstance(v, Inst) and t in v.cls.mro():
                return v
            if isinstance(v, VDict) and self.is_model(t):
                return self.I.instantiate(t, [], {key_of(k): x for k, x in v.items()})
            raise Bad
        if isinstance(t, Ext):
            last = t.path.split(".")[-1]
            if last in ("Any", "object", "Callable"):
                return v
            if last in ("DataFrame", "ndarray", "Series"):
                if self.isinstance_(v, t) is True:
                    return v
                raise Bad
            return v
        return v

    def exact(self, v, t):
        if t is None:
            return v is None or isinstance(v, SV) and v.wit is None
        if isinstance(t, Native):
            if isinstance(v, SV) and v.wit is NOWIT and v.kind is None:
                return False
            w = v.wit if isinstance(v, SV) and v.wit is not NOWIT else v
            if t.name == "int":
                return isinstance(w, int) and not isinstance(w, bool)
            return self.isinstance_(v, t) is True
        if isinstance(t, ExtObj):
            b = t.meta.get("base")
            return isinstance(b, Native) and self.isinstance_(v, b) is True
        if isinstance(t, (Cls, Ext)):
            return self.isinstance_(v, t) is True
        return False

    def coerce_container(self, v, n, a):
        I = self.I
        et = a[0] if a else None
        if n in ("list", "List", "set", "frozenset", "tuple"):
            if isinstance(v, SV) and v.wit is not NOWIT and isinstance(v.wit, (list, tuple)):
                return v
            if isinstance(v, SV) and v.kind in ("list", None) and v.wit is NOWIT and n == "list" and v.kind == "list":
                return v
            if isinstance(v, VList) and v.kind not in ("index", "axrow"):
                items = v.items
            elif isinstance(v, tuple):
                items = list(v)
            elif isinstance(v, VSet) and n != "tuple":
                items = list(v.d.values())
            elif isinstance(v, VIter) and not v.unbounded:
                items = list(v.it)
            else:
                raise Bad
            if a and n != "tuple":
                items = [self.coerce(x, et) for x in items]
            if n in ("set", "frozenset"):
                return VSet(items)
            return tuple(items) if n == "tuple" else VList(items)
        if n == "dict":
            if isinstance(v, SV) and v.kind == "dict":
                return v
            if not isinstance(v, VDict):
                raise Bad
            if a and len(a) == 2:
                return VDict([(self.coerce(k, a[0]), self.coerce(x, a[1])) for k, x in v.items()])
            return VDict(v.items())
        return v

    # ------------------------------------------------------------------ construction
    def invalid(self, why, obj=None):
        raise PyExc(Ext("pydantic.ValidationError"), (why,), self.I.site(), False)

    def guarded(self, fn):
        """validator body: ValueError/AssertionError become a validation error"""
        try:
            return fn()
        except PyExc as e:
            if isinstance(e.cls, type) and issubclass(e.cls, (ValueError, AssertionError)):
                self.I.event("validator-reject", exc=e)
                raise PyExc(Ext("pydantic.ValidationError"), e.pargs, e.where, False) from None
            raise

    def vcall(self, deco, k, v, info=None, data=None):
        f = deco.func
        while isinstance(f, Deco):
            f = f.func
        n = len(f.node.args.args) + len(f.node.args.posonlyargs) if isinstance(f, Func) else 2
        static = isinstance(deco.func, Deco) and deco.func.kind == "staticmethod"
        a = [v] if static else [k, v]
        if n > len(a):
            a.append(ExtObj("ValidationInfo", "info", {"data": data}))
        return self.guarded(lambda: self.I.call_func(f, a, {}))

    def check_field(self, k, name, v, data, default=False):
        b, an, fi = self.model_fields(k)[name]
        vals = [d for d in self.validators(k, "field_validator") if name in d.meta["fields"] or "*" in d.meta["fields"]]
        if default and not (fi.meta.get("validate_default") is True or self.model_conf(k, "validate_default") is True):
            return v
        for d in vals:
            if d.meta.get("mode") in ("before", "plain", "wrap"):
                v = self.vcall(d, k, v, data=data)
        if not any(d.meta.get("mode") == "plain" for d in vals):
            try:
                v = self.coerce(v, self.ann_type(b, an))
            except Bad:
                self.invalid(f"{k.name}.{name}: invalid value")
            self.constraints(fi, v, name)
        for d in vals:
            if d.meta.get("mode") in ("after", None):
                v = self.vcall(d, k, v, data=data)
        return v

    def constraints(self, fi, v, name):
        w = v.wit if isinstance(v, SV) else v
        if isinstance(w, (int, float)) and not isinstance(w, bool):
            m = fi.meta
            ok = True
            for q, f in (("ge", lambda a, b: a >= b), ("gt", lambda a, b: a > b), ("le", lambda a, b: a <= b), ("lt", lambda a, b: a < b)):
                lim = m.get(q)
                if isinstance(lim, (int, float)) and not f(w, lim):
                    ok = False
            if not ok:
                self.invalid(f"{name}: out of range")
        n = len(v.items) if isinstance(v, VList) else (len(v.d) if isinstance(v, VDict) else (len(w) if isinstance(w, str) else None))
        if n is not None:
            if isinstance(fi.meta.get("min_length"), int) and n < fi.meta["min_length"]:
                self.invalid(f"{name}: too short")
            if isinstance(fi.meta.get("max_length"), int) and n > fi.meta["max_length"]:
                self.invalid(f"{name}: too long")

    def model_init(self, o, kw):
        I = self.I
        k = o.cls
        fields = self.model_fields(k)
        for d in self.validators(k, "model_validator"):
            if d.meta.get("mode") == "before":
                r = self.vcall(d, k, VDict(kw.items()))
                if isinstance(r, VDict):
                    kw = {key_of(a): b for a, b in r.items()}
        if self.model_conf(k, "extra") == "forbid":
            for n in kw:
                if n not in fields:
                    self.invalid(f"extra field {n}")
        data = {}
        err = None
        for n, (b, an, fi) in fields.items():
            if n in kw:
                try:
                    data[n] = self.check_field(k, n, kw[n], VDict(data.items()))
                except PyExc as e:
                    if isinstance(e.cls, Ext) and e.cls.path.endswith("ValidationError"):
                        err = err or e
                        continue
                    raise
                o.fields_set.add(n)
            else:
                if fi.default is ... and fi.factory is None:
                    err = err or PyExc(Ext("pydantic.ValidationError"), (f"{k.name}.{n}: field required",), I.site(), False)
                    continue
                v = I.call(fi.factory, [], {}) if fi.factory is not None else self.copy_(fi.default, deep=True) if isinstance(fi.default, (VList, VDict, VSet)) else fi.default
                data[n] = self.check_field(k, n, v, VDict(data.items()), default=True)
        if err is not None:
            raise err
        if self.model_conf(k, "extra") == "allow":
            for n, v in kw.items():
                data.setdefault(n, v)
        o.f.update(data)
        for n, fi in self.privates(k).items():
            if fi.default is ... and fi.factory is None:
                continue
            o.priv[n] = I.call(fi.factory, [], {}) if fi.factory is not None else (self.copy_(fi.default, deep=True) if isinstance(fi.default, (VList, VDict, VSet)) else fi.default)
        pi, _ = k.lookup("model_post_init")
        if isinstance(pi, Func):
            I.call_func(pi, [o, None], {})
        self.run_after(o)

    def run_after(self, o):
        for d in self.validators(o.cls, "model_validator"):
            if d.meta.get("mode") in ("after", None):
                f = d.func.func if isinstance(d.func, Deco) else d.func
                args = [o.cls, o] if isinstance(d.func, Deco) and d.func.kind == "classmethod" else [o]
                self.guarded(lambda f=f, args=args: self.I.call_func(f, args, {}))

    def validate_assignment(self, o, name, v):
        if self.model_conf(o.cls, "frozen") is True:
            self.invalid("instance is frozen")
        if self.model_conf(o.cls, "validate_assignment") is True:
            return self.check_field(o.cls, name, v, VDict(o.f.items()))
        return v

    # ------------------------------------------------------------------ instances
    def inst_attr(self, o, name):
        I = self.I
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            v = VDict((), owner=o.owner)
            v.d = FieldView(o)
            return v
        if not self.is_model(o.cls):
            return None
        if name in ("model_copy", "copy"):
            def cp(a, k):
                deep = k.get("deep") is True
                n = self.copy_(o, deep)
                up = k.get("update")
                if isinstance(up, VDict):
                    for q, v in up.items():
                        n.f[key_of(q)] = v
                        n.fields_set.add(key_of(q))
                return n
            return Native(name, cp)
        if name in ("model_dump", "dict"):
            return Native(name, lambda a, k: self.dump(o, k))
        if name == "model_fields_set":
            return VSet(sorted(o.fields_set))
        if name in ("model_fields", "__fields__", "model_computed_fields", "model_extra"):
            return self.cls_attr(o.cls, name)
        if name == "__repr_args__":
            return I.unk(name)
        if name in ("model_validate", "model_construct"):
            return self.cls_attr(o.cls, name)
        return None

    def dump_value(self, v):
        if isinstance(v, Inst) and self.is_model(v.cls):
            return self.dump(v, {})
        if isinstance(v, VList) and v.kind == "list":
            return VList([self.dump_value(x) for x in v.items])
        if isinstance(v, VDict):
            return VDict([(q, self.dump_value(x)) for q, x in v.items()])
        if isinstance(v, VSet):
            return VSet(list(v.d.values()))
        return v

    def dump(self, o, k):
        ex = k.get("exclude")
        inc = k.get("include")
        exs = {key_of(x) for x in self.I.iterate(ex)} if ex is not None else set()
        ins = {key_of(x) for x in self.I.iterate(inc)} if inc is not None else None
        out = VDict()
        for n in self.model_fields(o.cls):
            if n in exs or (ins is not None and n not in ins) or n not in o.f:
                continue
            if k.get("exclude_unset") is True and n not in o.fields_set:
                continue
            v = o.f[n]
            if k.get("exclude_none") is True and (v is None or isinstance(v, SV) and v.wit is None):
                continue
            if k.get("exclude_defaults") is True:
                d = self.model_fields(o.cls)[n][2].default
                if is_simple(d) and is_simple(v) and d == v:
                    continue
            out.set(n, self.dump_value(v))
        return out

    def cls_attr(self, k, name):
        I = self.I
        if name == "__name__" or name == "__qualname__":
            return k.name
        if name == "__members__" and k.members is not None:
            return VDict(k.members.items())
        if name == "__mro__":
            return tuple(k.mro())
        if name == "__module__":
            return k.mod.name
        if name == "__doc__":
            return None
        if name == "__annotations__":
            return VDict([(n, None) for n in k.ann])
        if self.is_model(k):
            if name in ("model_fields", "__fields__"):
                return VDict([(n, ExtObj("FieldInfo", n, {"fi": fi})) for n, (b, an, fi) in self.model_fields(k).items()])
            if name == "model_validate":
                return Native(name, lambda a, kw: a[0] if isinstance(a[0], Inst) else I.instantiate(k, [], {key_of(q): v for q, v in a[0].items()}))
            if name == "model_construct":
                def construct(a, kw):
                    o = Inst(k)
                    for n, (b, an, fi) in self.model_fields(k).items():
                        if n in kw:
                            o.f[n] = kw[n]
                            o.fields_set.add(n)
                        elif fi.default is not ...:
                            o.f[n] = self.copy_(fi.default, True)
                        elif fi.factory is not None:
                            o.f[n] = I.call(fi.factory, [], {})
                    for n, fi in self.privates(k).items():
                        if fi.default is not ...:
                            o.priv[n] = self.copy_(fi.default, True)
                    return o
                return Native(name, construct)
        if name in ("__new__",):
            return Native("__new__", lambda a, kw: Inst(a[0]))
        if name == "__init__":
            return Native("__init__", lambda a, kw: self.super_ext(Ext("pydantic.BaseModel") if self.is_model(k) else Ext("object"), a[0], "__init__").fn(a[1:], kw))
        return None

    def super_ext(self, base, obj, name):
        I = self.I
        last = base.path.split(".")[-1]
        if last in ("BaseModel", "RootModel"):
            if name == "__init__":
                def init(a, kw):
                    self.model_init(obj, kw)
                return Native(name, init)
            if name == "__setattr__":
                return Native(name, lambda a, kw: I.setattr(obj, a[0], a[1], raw=True))
            if name == "model_post_init":
                return Native(name, lambda a, kw: None)
            if name in ("__repr__", "__str__"):
                return Native(name, lambda a, kw: SV(mk("repr", to_term(obj)), "str"))
            if name == "__eq__":
                return Native(name, lambda a, kw: obj is a[0])
            r = self.inst_attr(obj, name) if isinstance(obj, Inst) else self.cls_attr(obj, name)
            if r is not None:
                return r
        if name == "__init__":
            return Native(name, lambda a, kw: None)
        if name == "__setattr__":
            return Native(name, lambda a, kw: I.setattr(obj, a[0], a[1], raw=True))
        if name == "__getattribute__":
            return Native(name, lambda a, kw: I.getattr(obj, a[0]))
        if name == "__new__":
            return Native(name, lambda a, kw: Inst(a[0]))
        if name in ("__init_subclass__", "__post_init__"):
            return Native(name, lambda a, kw: None)
        if name in ("__repr__", "__str__"):
            return Native(name, lambda a, kw: SV(mk("repr", to_term(obj)), "str"))
        if name == "__hash__":
            return Native(name, lambda a, kw: 1)
        if name == "__eq__":
            return Native(name, lambda a, kw: obj is a[0])
        return Native(name, lambda a, kw: I.unk("super." + name))

    def dataclass_init(self, o, args, kw):
        I = self.I
        names = []
        owners = {}
        for b in reversed([x for x in o.cls.mro() if isinstance(x, Cls)]):
            for n in b.order:
                if n not in names:
                    names.append(n)
                owners[n] = b
        vals = dict(zip(names, args))
        if len(args) > len(names):
            I.throw(TypeError, "too many positional arguments")
        for n, v in kw.items():
            if n not in names:
                I.throw(TypeError, f"unexpected keyword argument {n}")
            if n in vals:
                I.throw(TypeError, f"multiple values for argument {n}")
            vals[n] = v
        for n in names:
            if n not in vals:
                d = owners[n].ns.get(n, ...)
                if isinstance(d, FieldInfo):
                    if d.factory is not None:
                        d = I.call(d.factory, [], {})
                    else:
                        d = d.default
                if d is ...:
                    I.throw(TypeError, f"missing argument {n}")
                vals[n] = d
            o.f[n] = vals[n]
        pi, _ = o.cls.lookup("__post_init__")
        if isinstance(pi, Func):
            I.call_func(pi, [o], {})


def is_simple(v):
    return v is None or isinstance(v, (bool, int, float, str))
