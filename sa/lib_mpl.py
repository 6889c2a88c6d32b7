"""Plotting surface, files, random generators and other external objects."""
from __future__ import annotations

from terms import mk, c
from values import *  # noqa: F403
from values import NOWIT, SV

CLASSES = {"Line2D", "MaxNLocator", "LogLocator", "ScalarFormatter", "TextPath", "FontProperties", "NullFormatter", "NullLocator",
           "Patch", "Rectangle", "LinearSegmentedColormap", "ListedColormap", "Normalize", "LogNorm", "FixedLocator", "AutoLocator",
           "ScalarMappable", "Ellipse", "LogFormatter", "FuncFormatter", "GridSpec", "AutoMinorLocator", "StrMethodFormatter", "NullLocator"}


class MplMixin:
    def ext_event(self, obj, name, args, kw, ret):
        return self.I.event("ext", obj=obj, name=name, args=list(args), kw=dict(kw), ret=ret,
                            targs=[to_term(a) for a in args], tkw={k: to_term(v) for k, v in kw.items()})

    # ------------------------------------------------------------------ matplotlib functions
    def call_mpl(self, path, args, kw):
        I = self.I
        name = path.split(".")[-1]
        if path.startswith("matplotlib.pyplot"):
            if name == "subplots":
                return self.subplots(args, kw)
            if name in ("figure", "gcf"):
                f = ExtObj("Figure", I.fresh("fig"), {"kw": kw})
                return f
            if name == "gca":
                return ExtObj("Axes", I.fresh("ax"))
            if name in ("get_cmap", "colormaps"):
                return ExtObj("Colormap", I.fresh("cmap"), {"args": args}, term=mk("cmap", tuple(to_term(a) for a in args)))
            if name in ("rc",):
                self.rc_set(args, kw)
                return None
            if name in ("rcdefaults",):
                I.event("rc", key="*", value=None)
                return None
        if name == "rc":
            self.rc_set(args, kw)
            return None
        if name in ("rc_context",):
            before = dict(self.rc)
            ns = args[0] if args else kw.get("rc")

            def leave():
                self.rc = before
                I.event("rc-restore")

            if isinstance(ns, VDict):
                for k, v in ns.items():
                    self.rc_write(key_of(k), v, ctx=True)
            return ExtObj("genctx", "rc_context", {"value": None, "exit": leave})
        if name in ("to_hex", "rgb2hex"):
            a = args[0] if args else kw.get("c")
            return SV(mk("call", "matplotlib.colors.to_hex", (("c", to_term(a)),) + tuple(sorted((k, to_term(v)) for k, v in kw.items() if k != "c"))), "str")
        if name in ("to_rgb", "hex2color", "to_rgba"):
            t = mk("call", "matplotlib.colors." + ("to_rgba" if name == "to_rgba" else "to_rgb"), (("c", to_term(args[0] if args else kw.get("c"))),))
            n = 4 if name == "to_rgba" else 3
            return tuple(SV(mk("item", t, c(i)), "scalar", nd=0) for i in range(n))
        if name in ("get_cmap",):
            return ExtObj("Colormap", I.fresh("cmap"), {"args": args}, term=mk("cmap", tuple(to_term(a) for a in args)))
        if name in ("is_color_like",):
            return SV(mk("call", name, (("0", to_term(args[0])),)), "bool")
        if name[:1].isupper() or name in CLASSES:
            o = ExtObj(name, I.fresh(name), {"args": args, "kw": kw, "path": path})
            I.event("extnew", obj=o, path=path, args=args, kw=kw, tkw={k: to_term(v) for k, v in kw.items()}, targs=[to_term(a) for a in args])
            return o
        I.event("extcall", path=path, args=args, kw=kw)
        return SV(self.callterm(path, [], args, kw), None)

    def subplots(self, args, kw):
        I = self.I
        nr = args[0] if args else kw.get("nrows", 1)
        nc = args[1] if len(args) > 1 else kw.get("ncols", 1)
        nrw, ncw = self.ival(nr), self.ival(nc)
        fid = I.fresh("fig")
        fig = ExtObj("Figure", fid, {"kw": kw})
        if nrw is None or ncw is None:
            nrw, ncw = nrw or 2, ncw or 2
            I.undecided.append(("subplots shape", I.site()))
        rows = []
        for i in range(nrw):
            rows.append([ExtObj("Axes", f"{fid}.ax{i},{j}", {"row": i, "col": j, "nrows": nrw, "ncols": ncw, "fig": fig}) for j in range(ncw)])
        fig.meta["axes"] = [a for r in rows for a in r]
        for q in ("x", "y"):
            how = kw.get("share" + q, False)
            for a in fig.meta["axes"]:
                a.meta["share" + q] = [b for b in fig.meta["axes"] if how in (True, "all") or how == "row" and a.meta["row"] == b.meta["row"] or how == "col" and a.meta["col"] == b.meta["col"] or a is b]
        I.event("subplots", fig=fig, rows=rows, nrows=nr, ncols=nc, kw=kw)
        if kw.get("squeeze", True) is False:
            return (fig, VGrid(rows))
        if nrw == 1 and ncw == 1:
            return (fig, rows[0][0])
        if nrw == 1:
            return (fig, VList(rows[0], kind="axrow"))
        if ncw == 1:
            return (fig, VList([r[0] for r in rows], kind="axrow"))
        return (fig, VGrid(rows))

    # ------------------------------------------------------------------ rc parameters
    def rcparams(self):
        if not hasattr(self, "_rcobj"):
            self._rcobj = ExtObj("rcParams", "rcParams")
        return self._rcobj

    def rc_get(self, k):
        if k not in self.rc:
            self.rc[k] = SV(mk("sym", "rc", k), None)
        return self.rc[k]

    def rc_write(self, k, v, ctx=False):
        self.I.event("rc", key=k, value=v, old=self.rc_get(k), ctx=ctx)
        self.rc[k] = v

    def rc_set(self, args, kw):
        g = args[0]
        gs = [g] if isinstance(g, str) else list(self.I.iterate(g))
        for gg in gs:
            for k, v in kw.items():
                self.rc_write(f"{gg}.{k}", v)

    # ------------------------------------------------------------------ grids
    def grid_attr(self, o, name):
        flat = [x for r in o.rows for x in r]
        if name in ("ravel", "flatten"):
            return Native(name, lambda a, k: VList(flat, kind="axrow"))
        if name == "flat":
            return VList(flat, kind="axrow")
        if name == "shape":
            return (len(o.rows), len(o.rows[0]) if o.rows else 0)
        if name == "size":
            return len(flat)
        if name == "ndim":
            return 2
        if name == "tolist":
            return Native(name, lambda a, k: VList([VList(r) for r in o.rows]))
        if name == "T":
            return VGrid([list(r) for r in zip(*o.rows)])
        if name in ("copy",):
            return Native(name, lambda a, k: VGrid([list(r) for r in o.rows]))
        if name == "squeeze":
            return Native(name, lambda a, k: o if len(o.rows) > 1 and len(o.rows[0]) > 1 else (VList(flat, kind="axrow") if len(flat) > 1 else flat[0]))
        if name == "reshape":
            return Native(name, lambda a, k: VList(flat, kind="axrow") if self.ival(a[0]) == -1 else o)
        return self.I.unk("grid." + name)

    def grid_getitem(self, o, k):
        I = self.I

        def ix(x):
            if isinstance(x, slice):
                return slice(*[None if y is None else self.ival(y) for y in (x.start, x.stop, x.step)])
            return self.ival(x)

        try:
            if isinstance(k, tuple) and len(k) == 2:
                a, b = ix(k[0]), ix(k[1])
                if isinstance(a, int) and isinstance(b, int):
                    return o.rows[a][b]
                if isinstance(a, int) and isinstance(b, slice):
                    return VList(o.rows[a][b], kind="axrow")
                if isinstance(a, slice) and isinstance(b, int):
                    return VList([r[b] for r in o.rows[a]], kind="axrow")
                if isinstance(a, slice) and isinstance(b, slice):
                    return VGrid([r[b] for r in o.rows[a]])
                return I.unk("grid index")
            a = ix(k)
            if isinstance(a, int):
                return VList(o.rows[a], kind="axrow")
            if isinstance(a, slice):
                return VGrid(o.rows[a])
        except IndexError:
            I.throw(IndexError, "index out of bounds")
        return I.unk("grid index")

    # ------------------------------------------------------------------ external objects
    ALIAS_CHILD = {"get_xaxis": "xaxis", "get_yaxis": "yaxis", "get_figure": "figure"}

    def child(self, m):
        """object behind an attribute of an external object"""
        o, name = m.obj, m.name
        if name not in o.children:
            if o.kind == "Axes" and name in ("figure",) and "fig" in o.meta:
                o.children[name] = o.meta["fig"]
            else:
                kind = {"xaxis": "Axis", "yaxis": "Axis", "spines": "Spines", "canvas": "Canvas"}.get(name, "attr")
                t = mk("extattr", to_term(o), name)
                o.children[name] = ExtObj(kind, f"{o.ident}.{name}", {"parent": o, "name": name}, term=t)
        return o.children[name]

    def force(self, m):
        """attribute of an external object used as a value"""
        t = mk("extattr", to_term(m.obj), m.name)
        return SV(t, None)

    def ext_getattr(self, o, name):
        I = self.I
        if name in o.attrs:
            return o.attrs[name]
        k = o.kind
        if k == "rcParams":
            if name in ("copy",):
                return Native(name, lambda a, kw: VDict([(q, v) for q, v in self.rc.items()]))
            if name == "get":
                return Native(name, lambda a, kw: self.rc_get(a[0]))
            if name == "update":
                def upd(a, kw):
                    for q, v in list(a[0].items() if a else []) + list(kw.items()):
                        self.rc_write(key_of(q), v)
                return Native(name, upd)
        if k == "exception":
            if name == "args":
                return o.meta["args"]
            return I.unk("exception attr")
        if k == "FieldInfo":
            fi = o.meta["fi"]
            if name == "default":
                return fi.default
            return fi.meta.get(name)
        if k == "ValidationInfo":
            if name == "data":
                return o.meta["data"]
            return I.unk("info attr")
        if k == "RootResults":
            if name == "root":
                return o.meta["root"]
            if name in ("converged",):
                return True
        if k == "Path":
            t = o.term
            if name in ("stem", "name", "suffix"):
                return SV(mk("smeth", name, t, ()), "str")
            if name == "parent":
                return ExtObj("Path", I.fresh("Path"), {}, term=mk("smeth", "parent", t, ()))
        if k == "generic":
            return I.unk("generic attr")
        if k == "symattr":
            return ExtObj("symattr", name, {"sv": SV(o.term, None)}, term=mk("attr", o.term, name))
        if k == "Figure" and name == "axes":
            return VList(o.meta.get("axes", []))
        if k == "Legend" and name in ("legendHandles", "legend_handles"):
            return VList([ExtObj("LegendHandle", I.fresh("lh")) for _ in o.meta.get("texts", [])])
        if k == "Axes" and name == "transAxes":
            return ExtObj("transform", "transAxes", {"parent": o})
        return ExtMeth(o, name)

    def ext_setattr(self, o, name, v):
        if isinstance(o, ExtMeth):
            o = self.child(o)
        if o.kind == "rcParams":
            return
        o.attrs[name] = v
        self.I.event("extset", obj=o, name=name, value=v)

    def ext_getitem(self, o, k):
        I = self.I
        if isinstance(o, ExtMeth):
            o = self.child(o)
        if o.kind == "rcParams":
            return self.rc_get(key_of(k))
        if o.kind == "indexer":
            return self.indexer_get(o, k)
        if o.kind == "symattr":
            return SV(mk("item", o.term, to_term(k)), None)
        if o.kind == "generic":
            return o
        if o.kind == "ModuleDict":
            return I.unk("item")
        kk = key_of(k) if not isinstance(k, slice) else repr(k)
        key = ("[]", kk)
        if key not in o.children:
            o.children[key] = ExtObj("item", f"{o.ident}[{kk!r}]", {"parent": o, "key": kk}, term=mk("item", to_term(o), to_term(k)))
        return o.children[key]

    def ext_setitem(self, o, k, v):
        if isinstance(o, ExtMeth):
            o = self.child(o)
        if o.kind == "rcParams":
            self.rc_write(key_of(k), v)
            return
        if o.kind == "indexer":
            self.indexer_set(o, k, v)
            return
        self.I.event("extset", obj=o, name=f"[{k!r}]", value=v)

    def iter_ext(self, o):
        if isinstance(o, ExtMeth):
            o = self.child(o)
        n = 2
        if o.kind == "generic-seq":
            n = o.meta.get("n", 2)
        return iter([self.ext_getitem(o, i) for i in range(n)]), False

    # ------------------------------------------------------------------ calls
    STATE = {"set_xlabel": "xlabel", "set_ylabel": "ylabel", "set_title": "title"}

    def call_meth(self, o, name, args, kw):
        I = self.I
        if isinstance(o, ExtMeth):
            o = self.child(o)
        args = [VList(list(I.iterate(a))) if isinstance(a, VIter) and not a.unbounded else a for a in args]
        k = o.kind
        if name == "__call__":
            if k == "decorator":
                return I.decorate(o, args[0])
            if k == "symattr":
                return SV(mk("mcall", o.ident, o.meta["sv"].term, tuple(to_term(a) for a in args), tuple((q, to_term(v)) for q, v in sorted(kw.items()))), None)
            if k == "Colormap":
                x = args[0]
                t = mk("call", "cmap", (("0", to_term(x)), ("cmap", to_term(o))))
                kind, length, nd = self.bcast(x)
                if kind in ("array", "series"):
                    return SV(t, "array", length=length, nd=(nd or 1) + 1)
                return tuple(SV(mk("item", t, c(i)), "scalar", nd=0) for i in range(4))
            if k == "generic":
                b = o.meta["base"]
                return I.call(b, args, kw)
            if k == "attr":
                # method of a forced attribute
                return self.call_meth(o.meta["parent"], o.meta["name"], args, kw)
        h = o.meta.get("methods") if isinstance(o.meta, dict) else None
        if h and name in h:
            return h[name](args, kw)
        if k in ("Generator",):
            return self.rng_call(o, name, args, kw)
        if k == "frozen_rv":
            return self.rv_call(o, name, args, kw)
        if k == "logger":
            I.event("log", name=name, args=args)
            return None
        if k == "file":
            if name == "read":
                return SV(mk("ext", "file-contents", o.ident), "str")
            self.ext_event(o, name, args, kw, None)
            return None
        if k == "Path":
            return self.path_call(o, name, args, kw)
        if k == "exception":
            if name in ("__str__",):
                return SV(mk("exc", tuple(to_term(a) for a in o.meta["args"])), "str")
            return None
        if k == "Axes" or k in ("Axis", "Figure", "attr", "item", "Canvas"):
            return self.axes_call(o, name, args, kw)
        if k == "Legend" and name == "get_texts":
            return VList(o.meta["texts"])
        if k in ("TextPath",) and name == "get_extents":
            return ExtObj("attr", I.fresh("extents"), {"parent": o, "name": name}, term=mk("call", "extents", (("0", mk("list", tuple(to_term(a) for a in o.meta["args"]))),)))
        ret = ExtObj("ret", I.fresh(f"{o.ident}.{name}"), {"parent": o, "name": name}, term=mk("extcall", to_term(o), name, tuple(to_term(a) for a in args)))
        self.ext_event(o, name, args, kw, ret)
        return ret

    def axes_call(self, o, name, args, kw):
        I = self.I
        ret = None
        if name in self.ALIAS_CHILD and o.kind == "Axes":
            return self.child(ExtMeth(o, self.ALIAS_CHILD[name]))
        if name in self.STATE and args:
            o.attrs["@" + self.STATE[name]] = args[0]
        elif name == "set" and o.kind == "Axes":
            for q in list(kw):
                if "set_" + q in ("set_xlim", "set_ylim", "set_xscale", "set_yscale", "set_xlabel", "set_ylabel", "set_title", "set_xticks", "set_yticks", "set_xticklabels", "set_yticklabels"):
                    v = kw[q]
                    self.axes_call(o, "set_" + q, [v], {})
            return None
        elif name in ("get_xlabel", "get_ylabel", "get_title"):
            return o.attrs.get("@" + name[4:], "")
        elif name in ("set_xlim", "set_ylim"):
            if args and isinstance(args[0], (tuple, VList)):
                lo, hi = list(I.iterate(args[0]))
            elif args and isinstance(args[0], SV) and len(args) == 1:
                lo, hi = self.getitem(args[0], 0), self.getitem(args[0], 1)
            elif len(args) == 2:
                lo, hi = args
            elif len(args) == 1 and args[0] is None or not args:
                lo = kw.get("left", kw.get("bottom", kw.get("xmin", kw.get("ymin"))))
                hi = kw.get("right", kw.get("top", kw.get("xmax", kw.get("ymax"))))
            else:
                lo, hi = args[0], kw.get("right", kw.get("top"))
            d = name[4:]
            for b in o.meta.get("share" + d[0]) or [o]:
                b.attrs["@" + d] = (lo, hi)
            self.ext_event(o, name, [lo, hi], {}, None)
            return (lo, hi)
        elif name in ("get_xlim", "get_ylim", "get_xbound", "get_ybound"):
            d = name[4:].replace("bound", "lim")
            st = o.attrs.get("@" + d)
            if st is not None and None not in st:
                return st
            n = I.fresh("lim")
            return tuple(SV(mk("sym", "autolim", o.ident, d, i), "scalar", nd=0) for i in range(2))
        elif name in ("get_text", "get_xscale", "get_yscale", "get_label", "get_label_text"):
            if name == "get_label_text" and o.kind == "Axis":
                return o.meta["parent"].attrs.get("@" + ("xlabel" if o.meta["name"] == "xaxis" else "ylabel"), "")
            return SV(mk("extcall", to_term(o), name, ()), "str")
        elif name in ("set_label_text",) and o.kind == "Axis":
            return self.axes_call(o.meta["parent"], "set_xlabel" if o.meta["name"] == "xaxis" else "set_ylabel", args, kw)
        elif name in ("get_xticklabels", "get_yticklabels", "get_ticklabels", "get_xmajorticklabels", "get_xticklines", "get_majorticklabels", "get_minorticklabels"):
            key = ("seq", name)
            if key not in o.children:
                o.children[key] = VList([ExtObj("TickLabel", f"{o.ident}.{name}[{i}]", {"parent": o, "axis": name}) for i in range(2)])
            return VList(o.children[key].items)
        elif name in ("plot", "semilogx", "semilogy", "loglog", "clabel", "fill"):
            ret = VList([ExtObj("artist", I.fresh("artist"), {"by": name})])
            if name == "clabel":
                ret = VList([ExtObj("text", I.fresh("text"), {"by": name}) for _ in range(2)])
        elif name in ("hist",):
            ret = (SV(mk("sym", "hist-n", I.fresh("h")), "array", nd=1), SV(mk("sym", "hist-bins", I.fresh("h")), "array", nd=1), ExtObj("artist", I.fresh("artist"), {"by": name}))
        elif name in ("twinx", "twiny", "inset_axes", "add_subplot", "add_axes"):
            ret = ExtObj("Axes", I.fresh("ax"), {"parent": o})
        elif name == "subplots" and o.kind == "Figure":
            _, g = self.subplots(args, kw)
            return g
        elif name == "legend":
            h = kw.get("handles", args[0] if args else None)
            hs = list(I.iterate(h)) if h is not None else []
            ret = ExtObj("Legend", I.fresh("legend"), {"parent": o, "handles": hs})
            ret.meta["texts"] = [ExtObj("text", f"{ret.ident}.text{i}", {"handle": x}) for i, x in enumerate(hs)]
        elif name == "colorbar":
            ret = ExtObj("Colorbar", I.fresh("cbar"), {"mappable": args[0] if args else None, "parent": o})
            ret.children["ax"] = ExtObj("Axes", ret.ident + ".ax", {"cbar": ret})
        elif name in ("get_offset_text",):
            return self.child(ExtMeth(o, "offsetText"))
        else:
            kind = {"scatter": "PathCollection", "contour": "QuadContourSet", "contourf": "QuadContourSet"}.get(name, "artist")
            if name.startswith(("set_", "tick_params", "invert", "grid", "draw", "subplots_adjust", "savefig", "suptitle_")):
                ret = None
            elif name.startswith("get_"):
                ret = ExtObj("attr", I.fresh(f"{o.ident}.{name}"), {"parent": o, "name": name}, term=mk("extcall", to_term(o), name, tuple(to_term(a) for a in args)))
            else:
                ret = ExtObj(kind, I.fresh(name), {"by": name, "ax": o})
        e = self.ext_event(o, name, args, kw, ret)
        if isinstance(ret, ExtObj):
            ret.meta["event"] = e
        return ret

    def path_call(self, o, name, args, kw):
        I = self.I
        if name == "open":
            f = ExtObj("file", I.fresh("file"), {"path": o, "mode": args[0] if args else kw.get("mode", "r")})
            I.event("open", path=o, mode=f.meta["mode"], file=f)
            return f
        if name in ("write_text", "write_bytes"):
            f = ExtObj("file", I.fresh("file"), {"path": o, "mode": "w"})
            I.event("open", path=o, mode="w", file=f)
            self.ext_event(f, "write", args, kw, None)
            return None
        if name in ("with_suffix", "joinpath", "resolve", "absolute", "expanduser", "with_name"):
            return ExtObj("Path", I.fresh("Path"), {}, term=mk("smeth", name, o.term, tuple(to_term(a) for a in args)))
        if name in ("exists", "is_file", "is_dir"):
            return SV(mk("smeth", name, o.term, ()), "bool")
        if name in ("as_posix", "__str__"):
            return SV(mk("smeth", "str", o.term, ()), "str")
        self.ext_event(o, name, args, kw, None)
        return None

    def rng_call(self, o, name, args, kw):
        o.meta["n"] = o.meta.get("n", 0) + 1
        seed = o.meta.get("seed")
        if seed is None:
            self.I.event("ambient", path="numpy.random.Generator(seedless)")
        if name in ("shuffle",):
            self.I.mutate(args[0], "shuffle")
        t = mk("rng", o.term, o.meta["n"], name, tuple(to_term(a) for a in args), tuple((k, to_term(v)) for k, v in sorted(kw.items())))
        size = kw.get("size")
        if name == "choice":
            size = kw.get("size", args[1] if len(args) > 1 else None)
        elif name in ("random", "standard_normal"):
            size = args[0] if args else size
        elif name in ("normal", "uniform", "multivariate_normal", "integers", "poisson"):
            size = args[2] if len(args) > 2 else size
        self.I.event("rng-draw", obj=o, name=name, args=args, kw=kw, seed=seed)
        nd = None
        length = None
        if isinstance(size, tuple):
            nd, length = len(size), size[0]
        elif size is not None:
            nd, length = 1, size
        elif name == "permutation":
            nd, length = 1, args[0] if isinstance(args[0], int) else self.lenof(args[0])
            if isinstance(args[0], SV) and args[0].kind == "scalar":
                length = args[0]
        if name == "multivariate_normal":
            nd = 2
        if nd is None and name in ("random", "normal", "uniform"):
            return SV(t, "scalar", nd=0)
        return SV(t, "array", nd=nd, length=length)

    def rv_call(self, o, name, args, kw):
        if name == "rvs":
            rs = kw.get("random_state", args[1] if len(args) > 1 else None)
            size = kw.get("size", args[0] if args else None)
            if rs is None:
                self.I.event("ambient", path="scipy.stats rvs without random_state")
                t = mk("ext", "rvs", self.I.fresh("rvs"))
            else:
                t = mk("call", "rvs", (("rv", to_term(o)), ("seed", to_term(rs)), ("size", to_term(size))))
            return SV(t, "array", nd=2, length=size)
        kind, length, nd = self.bcast(args[0]) if args else (None, None, None)
        return SV(mk("mcall", name, to_term(o), tuple(to_term(a) for a in args), ()), "array", nd=1, length=length)
