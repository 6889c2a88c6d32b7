"""Figures as seen through the drawing calls: panels, artists along each axis, tick/scale/limit state, texts."""
from __future__ import annotations

from fractions import Fraction as Fr

from calc import BAD, Shift, short
from terms import Term, callarg, leaves, num, subterms
from values import *  # noqa: F403
from values import SV, ExtMeth, ExtObj, VList, to_term

DRAW = {"plot", "scatter", "hist", "fill_between", "fill_betweenx", "axvline", "axhline", "axvspan", "axhspan", "contour", "contourf", "errorbar", "bar", "barh",
        "step", "vlines", "hlines", "pcolormesh", "imshow", "hist2d", "hexbin", "stairs", "semilogx", "semilogy", "loglog", "fill", "axline", "tricontour", "tricontourf", "pcolor", "stem"}
TEXT = {"text", "annotate", "set_title", "set_xlabel", "set_ylabel", "suptitle", "set_label", "supxlabel", "supylabel", "set_label_text"}
SIG = {
    "scatter": ("x", "y", "s", "c", "marker", "cmap"), "hist": ("x", "bins"), "fill_between": ("x", "y1", "y2"), "fill_betweenx": ("y", "x1", "x2"), "axvline": ("x", "ymin", "ymax"),
    "axhline": ("y", "xmin", "xmax"), "axvspan": ("xmin", "xmax"), "axhspan": ("ymin", "ymax"), "errorbar": ("x", "y", "yerr", "xerr", "fmt"), "bar": ("x", "height", "width", "bottom"),
    "barh": ("y", "width", "height", "left"), "step": ("x", "y"), "vlines": ("x", "ymin", "ymax"), "hlines": ("y", "xmin", "xmax"), "pcolormesh": ("X", "Y", "Z"), "pcolor": ("X", "Y", "Z"),
    "contour": ("X", "Y", "Z", "levels"), "contourf": ("X", "Y", "Z", "levels"), "plot": ("x", "y", "fmt"), "semilogx": ("x", "y"), "semilogy": ("x", "y"), "loglog": ("x", "y"),
    "fill": ("x", "y"), "hist2d": ("x", "y"), "hexbin": ("x", "y"),
}


def cv(t):
    """concrete value of a term, else None"""
    if isinstance(t, Term) and t.op == "c":
        return t.a[0]
    return None


class Artist:
    def __init__(self, e):
        self.e = e
        self.name = e.name
        a = list(e.d.get("targs") or [])
        k = dict(e.d.get("tkw") or {})
        sig = SIG.get(self.name, ())
        self.args = {}
        if self.name in ("contour", "contourf", "pcolormesh", "pcolor") and len(a) in (1, 2):
            sig = ("Z", "levels")
        if self.name in ("plot", "semilogx", "semilogy", "loglog") and len(a) == 1:
            sig = ("y",)
        for n, v in zip(sig, a):
            self.args[n] = v
        self.args.update(k)
        self.extra = len(a) > len(sig)
        self.site = e.site
        self.stack = e.stack

    def get(self, *names):
        for n in names:
            v = self.args.get(n)
            if v is not None and not (v.op == "c" and v.a[0] is None):
                return v
        return None

    @property
    def horizontal(self):
        o = self.args.get("orientation")
        return cv(o) if o is not None else "vertical"

    def along(self):
        """(axis, role, term); role: pos = coordinate, err = extent relative to a coordinate"""
        A, n = self.args, self.name
        out = []

        def put(ax, role, *names):
            for q in names:
                v = self.get(q)
                if v is not None:
                    out.append((ax, role, v))

        if n in ("plot", "step", "scatter", "semilogx", "semilogy", "loglog", "fill", "hist2d", "hexbin", "errorbar"):
            put("x", "pos", "x")
            put("y", "pos", "y")
            if n == "errorbar":
                put("x", "err", "xerr")
                put("y", "err", "yerr")
        elif n == "hist":
            h = self.horizontal
            if h not in ("vertical", "horizontal"):
                return out
            a, b = ("x", "y") if h == "vertical" else ("y", "x")
            put(a, "pos", "x")
            v = self.get("bins")
            if v is not None and num(v) is None and v.op != "opt":
                out.append((a, "pos", v))
            put(b, "pos", "weights")
        elif n == "fill_between":
            put("x", "pos", "x")
            put("y", "pos", "y1", "y2")
        elif n == "fill_betweenx":
            put("y", "pos", "y")
            put("x", "pos", "x1", "x2")
        elif n == "axvline":
            put("x", "pos", "x")
        elif n == "axhline":
            put("y", "pos", "y")
        elif n == "axvspan":
            put("x", "pos", "xmin", "xmax")
        elif n == "axhspan":
            put("y", "pos", "ymin", "ymax")
        elif n == "vlines":
            put("x", "pos", "x")
            put("y", "pos", "ymin", "ymax")
        elif n == "hlines":
            put("y", "pos", "y")
            put("x", "pos", "xmin", "xmax")
        elif n == "bar":
            put("x", "pos", "x")
            put("y", "pos", "height")
        elif n == "barh":
            put("y", "pos", "y")
            put("x", "pos", "width")
        elif n in ("contour", "contourf", "pcolormesh", "pcolor"):
            put("x", "pos", "X")
            put("y", "pos", "Y")
        return out

    def z(self):
        return self.get("Z") if self.name in ("contour", "contourf", "pcolormesh", "pcolor") else None

    def terms(self):
        return list(self.args.values())

    def args_term(self):
        from terms import mk

        return mk("list", tuple(self.args.values()))


class Axis:
    """tick, scale and limit state of one axis"""

    def __init__(self):
        self.major, self.minor, self.labels = "auto", "auto", True
        self.log = False
        self.lim = None
        self.limsite = None
        self.scaled = None

    def scale(self, v, site):
        self.log = v
        self.scaled = site
        self.major = self.minor = "auto"

    @property
    def shows(self):
        """what numbers the axis can show"""
        if not self.labels:
            return None
        if self.major != "none":
            return "major"
        if self.minor != "none" and self.log not in (False, "linear"):
            return "minor"
        return None


class Panel:
    def __init__(self, ax):
        self.ax = ax
        self.x, self.y = Axis(), Axis()
        self.artists = []
        self.texts = []  # (call, term, event)
        self.visible = True
        self.events = []

    def axis(self, k):
        return self.x if k == "x" else self.y

    @property
    def row(self):
        return self.ax.meta.get("row")

    @property
    def col(self):
        return self.ax.meta.get("col")


def isempty(v):
    return isinstance(v, VList) and not v.items or isinstance(v, tuple) and not v or isinstance(v, SV) and v.term.op == "list" and not v.term.a[0]


def apply_ticks(axis, name, e):
    """tick calls common to Axes (with x/y stripped), Axis and Colorbar"""
    d = e.d
    a = d["args"]
    kw = d["kw"]
    first = a[0] if a else kw.get("ticks", kw.get("labels"))
    if name == "set_ticks":
        minor = kw.get("minor", a[2] if len(a) > 2 else False)
        v = "none" if isempty(first) else "auto"
        if minor is True:
            axis.minor = v
        else:
            axis.major = v
            lab = kw.get("labels", a[1] if len(a) > 1 and not isinstance(a[1], bool) else None)
            if lab is not None:
                axis.labels = not isempty(lab)
    elif name == "set_ticklabels":
        axis.labels = not isempty(first)
    elif name in ("set_major_locator", "set_minor_locator"):
        v = "none" if isinstance(first, ExtObj) and first.kind == "NullLocator" else "auto"
        if name == "set_major_locator":
            axis.major = v
        else:
            axis.minor = v
    elif name in ("set_major_formatter", "set_minor_formatter"):
        null = isinstance(first, ExtObj) and first.kind == "NullFormatter"
        if name == "set_major_formatter":
            axis.labels = not null
        elif null:
            axis.minor = "none"
    elif name == "set_visible":
        if first is False:
            axis.labels = False
        elif first is True:
            axis.labels = True
    elif name == "set_tick_params":
        tick_params(axis, kw, "x")
        tick_params(axis, kw, "y")


def tick_params(axis, kw, which):
    keys = ("labelbottom", "labeltop") if which == "x" else ("labelleft", "labelright")
    for k in keys:
        if k in kw:
            axis.labels = bool(kw[k]) if isinstance(kw[k], (bool, int)) else True


class Figure:
    """all panels of the figures made since the mark"""

    def __init__(self, W, evs=None):
        self.W = W
        self.panels = {}
        self.figs = []
        self.grid = {}
        self.cbars = []
        self.legends = []
        self.saves = []
        self.texts = []  # (owner object, call, term, event)
        self.unknown = []
        for n, e in enumerate(evs if evs is not None else W.events()):
            self.feed(n, e)

    def panel(self, ax):
        if id(ax) not in self.panels:
            self.panels[id(ax)] = Panel(ax)
        return self.panels[id(ax)]

    def feed(self, n, e):
        if e.kind == "subplots":
            self.figs.append(e.fig)
            self.shape = (len(e.rows), len(e.rows[0]) if e.rows else 0)
            for r in e.rows:
                for a in r:
                    p = self.panel(a)
                    self.grid[(a.meta["row"], a.meta["col"])] = p
            return
        if e.kind != "ext":
            return
        o, name = e.obj, e.name
        if isinstance(o, ExtMeth):
            return
        t = list(e.d.get("targs") or [])
        tk = e.d.get("tkw") or {}
        if o.kind == "Axes" and o.meta.get("cbar") is not None:
            cb = self.cbar(o.meta["cbar"])
            if name in ("set_xticks", "set_yticks"):
                apply_ticks(cb["axis"], "set_ticks", e)
            elif name in ("set_xticklabels", "set_yticklabels"):
                apply_ticks(cb["axis"], "set_ticklabels", e)
            elif name == "tick_params":
                tick_params(cb["axis"], e.d["kw"], "x")
                tick_params(cb["axis"], e.d["kw"], "y")
            elif name in TEXT:
                cb["texts"].append((name, t[0] if t else None, e))
            return
        if o.kind == "Axes":
            p = self.panel(o)
            p.events.append(e)
            if name in DRAW:
                p.artists.append(Artist(e))
                return
            if name in TEXT:
                i = 2 if name == "text" else 0
                v = t[i] if len(t) > i else tk.get("s", tk.get("label", tk.get("text", tk.get("xlabel", tk.get("ylabel")))))
                if v is not None:
                    p.texts.append((name, v, e))
                    self.texts.append((o, name, v, e))
                return
            for k in "xy":
                ax = p.axis(k)
                if name == f"set_{k}scale":
                    ax.scale(cv(t[0]) if t and t[0].op == "c" else "?", e.site)
                elif name == f"set_{k}lim":
                    for b in o.meta.get(f"share{k}") or [o]:
                        q = self.panel(b).axis(k)
                        q.lim, q.limsite = (t[0], t[1]), e.site
                elif name == f"set_{k}ticks":
                    apply_ticks(ax, "set_ticks", e)
                elif name == f"set_{k}ticklabels":
                    apply_ticks(ax, "set_ticklabels", e)
                elif name == "tick_params":
                    which = e.d["args"][0] if e.d["args"] else e.d["kw"].get("axis", "both")
                    if which in ("both", k):
                        tick_params(ax, e.d["kw"], k)
            if name == "set_axis_off" or name == "axis" and t and cv(t[0]) in ("off", False):
                p.visible = False
            elif name == "set_axis_on":
                p.visible = True
            elif name == "set_visible" and t:
                p.visible = cv(t[0]) is not False
            elif name in ("clear", "cla"):
                p.x, p.y, p.artists, p.texts = Axis(), Axis(), [], []
            elif name == "legend":
                self.legends.append((p, e))
            elif name in ("twinx", "twiny"):
                self.unknown.append(e)
            return
        if o.kind == "Axis" and isinstance(o.meta.get("parent"), ExtObj) and o.meta["parent"].kind == "Axes":
            par = o.meta["parent"]
            if par.meta.get("cbar") is not None:
                apply_ticks(self.cbar(par.meta["cbar"])["axis"], name, e)
                return
            p = self.panel(par)
            p.events.append(e)
            ax = p.axis("x" if o.meta["name"] == "xaxis" else "y")
            if name in ("set_scale", "_set_scale"):
                ax.scale(cv(t[0]) if t and t[0].op == "c" else "?", e.site)
            else:
                apply_ticks(ax, name, e)
            return
        if o.kind == "Figure":
            if name == "savefig":
                self.saves.append((n, e))
            elif name == "colorbar":
                self.cbar(e.ret)["event"] = e
            elif name == "legend":
                self.legends.append((None, e))
            elif name in TEXT:
                i = 2 if name == "text" else 0
                v = t[i] if len(t) > i else tk.get("s", tk.get("t"))
                if v is not None:
                    self.texts.append((o, name, v, e))
            return
        if o.kind == "Colorbar":
            cb = self.cbar(o)
            if name in TEXT:
                cb["texts"].append((name, t[0] if t else tk.get("label"), e))
            else:
                apply_ticks(cb["axis"], name, e)

    def cbar(self, o):
        for c in self.cbars:
            if c["obj"] is o:
                return c
        c = {"obj": o, "axis": Axis(), "texts": [], "event": None}
        self.cbars.append(c)
        return c


# ---------------------------------------------------------------------------------------------- which parameter
class Moves(Shift):
    """translation coefficient with respect to one parameter"""

    def __init__(self, p, isleaf):
        super().__init__(lambda t: Fr(1) if t.a[1] == p else Fr(0))
        self.p = p
        self.isleaf = isleaf

    def step(self, t):
        if t.op == "opt":
            return Fr(1) if self.isleaf(t) and t.a[1] == self.p else Fr(0)
        return super().step(t)


class Params:
    """attributes a value to the parameter whose coordinate it is"""

    def __init__(self, W, params, owners):
        self.params = params
        self.owners = owners
        self.dom = {p: Moves(p, self.isleaf).roots(W.events()) for p in params}

    def isleaf(self, t):
        return t.a[0] in self.owners

    def deps(self, t):
        return {x.a[1] for x in leaves(t) if x.op == "col" and x.a[1] in self.params or x.op == "opt" and self.isleaf(x) and x.a[1] in self.params}

    def coef(self, t):
        return {p: d(t) for p, d in self.dom.items()}

    def of(self, t):
        """(parameter or None, certain): None = moves with no parameter"""
        d = self.deps(t)
        if not d:
            return None, True
        if t.op == "list":
            got = {self.of(x) for x in t.a[0] if self.deps(x)}
            if len(got) == 1:
                return got.pop()
        c = self.coef(t)
        if all(isinstance(v, Fr) for v in c.values()):
            one = [p for p, v in c.items() if v != 0]
            if not one:
                return None, True
            if len(one) == 1 and c[one[0]] == 1:
                return one[0], True
            return tuple(sorted(one)), True
        if len(d) == 1:
            return next(iter(d)), False
        return tuple(sorted(d)), False

    # ---------------------------------------------------------------- orientation of grids
    def axes_of(self, t, memo=None):
        """parameters along the dimensions of a grid, ('A','B') = first dimension A"""
        memo = {} if memo is None else memo
        if not isinstance(t, Term):
            return None
        if t.id in memo:
            return memo[t.id]
        memo[t.id] = None
        memo[t.id] = r = self._axes(t, memo)
        return r

    def _axes(self, t, memo):
        op = t.op
        if op == "item" and isinstance(t.a[0], Term) and t.a[0].op == "call":
            b, k = t.a[0], num(t.a[1]) if isinstance(t.a[1], Term) else t.a[1]
            n = short(b)
            if n == "histogram2d" and k == 0:
                x, y = self.of(callarg(b, "x")), self.of(callarg(b, "y"))
                return (x[0], y[0]) if isinstance(x[0], str) and isinstance(y[0], str) else None
            if n == "meshgrid" and k in (0, 1):
                args = [v for q, v in b.a[1] if q not in ("indexing", "sparse", "copy")]
                ps = [self.of(v)[0] for v in args]
                if len(ps) != 2 or not all(isinstance(p, str) for p in ps):
                    return None
                ix = callarg(b, "indexing")
                ix = cv(ix) if isinstance(ix, Term) else "xy"
                return tuple(ps) if ix == "ij" else tuple(reversed(ps)) if ix in ("xy", None) else None
        if op == "T":
            r = self.axes_of(t.a[0], memo)
            return tuple(reversed(r)) if r else None
        if op in ("bin", "cmp"):
            a, b = self.axes_of(t.a[1], memo), self.axes_of(t.a[2], memo)
            return a if a and (b is None or a == b) else (b if a is None else None)
        if op == "un":
            return self.axes_of(t.a[1], memo)
        if op in ("setitem", "not"):
            return self.axes_of(t.a[0], memo)
        if op == "mutated":
            return self.axes_of(t.a[-1], memo) or self.axes_of(t.a[0], memo)
        if op == "reshape":
            out, seen, todo = set(), set(), [t.a[0]]
            while todo:
                x = todo.pop()
                if not isinstance(x, Term) or x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == "ravel":
                    g = self.axes_of(x.a[0], memo)
                    if g:
                        if len(x.a) > 1 and cv(x.a[1]) in ("F",):
                            return None
                        out.add(g)
                        continue
                stack = list(x.a)
                while stack:
                    y = stack.pop()
                    if isinstance(y, Term):
                        todo.append(y)
                    elif isinstance(y, tuple):
                        stack.extend(y)
            return out.pop() if len(out) == 1 else None
        if op == "call":
            n = short(t)
            if n in ("transpose", "swapaxes"):
                r = self.axes_of(next((v for _, v in t.a[1]), None), memo)
                return tuple(reversed(r)) if r else None
            if n in ("gaussian_filter", "exp", "log", "sqrt", "power", "abs", "absolute", "where", "clip", "maximum", "minimum", "asarray", "array", "nan_to_num", "square", "copy"):
                for _, v in t.a[1]:
                    g = self.axes_of(v, memo)
                    if g:
                        return g
        return None
