from __future__ import annotations

import re
from collections import Counter

from classes import Classes
from common import *  # noqa: F403
from common import S, std
from figs import Artist, DRAW
from rules_stats import PLOTS, flat, where
from terms import Term, callarg, leaves, mk, num, show, src_site, subterms
from values import *  # noqa: F403
from values import NOWIT, SV, ExtObj, Inst, PyExc, VDict, VFrame, VList, to_term

PALETTE = ("rose", "pink", "fuchsia", "purple", "violet", "indigo", "blue", "sky", "cyan", "teal", "emerald", "green", "lime", "yellow", "amber", "orange", "red",
           "warmGray", "trueGray", "gray", "coolGray", "blueGray")
ALIASES = ("b", "r", "g", "k", "f", "m", "c", "o", "y", "a", "p", "e", "lg", "lb", "black", "white")
HEX6 = re.compile(r"#[0-9a-fA-F]{6}\Z")
HEX = re.compile(r"#(?:[0-9a-fA-F]{3}|[0-9a-fA-F]{4}|[0-9a-fA-F]{6}|[0-9a-fA-F]{8})\Z")


def finder(W):
    return W.I.load("chainconsumer.color_finder").ns["colors"]


def text(v):
    """concrete text of a value, else None"""
    if isinstance(v, SV):
        if v.term.op == "c":
            return v.term.a[0]
        return v.wit if v.wit is not NOWIT else None
    return v


def message(exc):
    out = []
    for a in exc.pargs:
        out.append(a if isinstance(a, str) else show(to_term(a)) if isinstance(a, (SV, Term)) else repr(a))
    return " ".join(out)


def decided(run, s):
    """the run ended without the analysis giving up or an implicit exception it cannot vouch for"""
    if run.exc is not None:
        s.undecided(f"{run.name}: ends in {run.exc.cname} at {run.exc.where}")
        return False
    return True


# ---------------------------------------------------------------------------------------------- C05
def byte_part(W, t, spec):
    """does `fmt(spec, t)` give exactly two hex digits? True / False / None"""
    if not isinstance(spec, str):
        return None
    m = re.fullmatch(r"(0?)(\d*)([xX])", spec)
    if not m:
        return None
    if not (m.group(1) and m.group(2) == "2"):
        return False
    lo, hi = bounds(W, t)
    return True if lo is not None and lo >= 0 and hi is not None and hi <= 255 else None


def bounds(W, t):
    n = num(t)
    if n is not None:
        return n, n
    lo = hi = None
    for a, v in W.I.atoms.items():
        if a.op != "cmp" or a.a[0] != "<":
            continue
        p, q = a.a[1], a.a[2]
        if p is t and num(q) is not None:
            if v:
                hi = num(q) if hi is None else min(hi, num(q))
            else:
                lo = num(q) if lo is None else max(lo, num(q))
        if q is t and num(p) is not None:
            if v:
                lo = num(p) if lo is None else max(lo, num(p))
            else:
                hi = num(p) if hi is None else min(hi, num(p))
    if t.op in ("call", "pick"):
        f = t.a[0].split(".")[-1]
        if f == "clip":
            xs = [num(v) for k, v in t.a[1]][1:3]
            if len(xs) == 2 and None not in xs:
                return xs[0], xs[1]
        if f in ("min", "minimum", "max", "maximum"):
            kids = list(t.a[1]) if t.op == "pick" else []
            for k, v in t.a[1] if t.op == "call" else ():
                kids += list(v.a[0]) if isinstance(v, Term) and v.op == "list" else [v]
            bs = [bounds(W, k) for k in kids]
            los, his = [b[0] for b in bs], [b[1] for b in bs]
            if f.startswith("min"):
                h = [x for x in his if x is not None]
                return (min(los) if None not in los else None), (min(h) if h else hi)
            lw = [x for x in los if x is not None]
            return (max(lw) if lw else lo), (max(his) if None not in his else None)
        if f in ("int", "round", "rint", "floor") and len(t.a[1]):
            a, b = bounds(W, t.a[1][0][1])
            a, b = (a if a is None else int(a)), (b if b is None else int(b))
            return (a if lo is None else lo if a is None else max(a, lo)), (b if hi is None else hi if b is None else min(b, hi))
    return lo, hi


def C05(ctx):
    """Constant propagation over the finite colour tables: every palette name and alias is pushed through the lookup (directly and through the chain's validator) and must come out as a
    six-digit hex constant; names outside the tables must end in an exception that mentions them. Rescaling is analysed for constant colours with constant and with unknown factors: in the
    latter case every formatted channel must be two-digit, zero-padded and, by the range of its value under the path conditions, within a byte. Default colours: consumers with up to 81
    chains are interpreted through the plots and the colour argument of every draw call is attributed to the chain its data come from."""
    full = ctx.tier == "thorough"

    def names(W):
        fi = finder(W)
        W.mark()
        W.out = []
        table = W.I.load("chainconsumer.color_finder").ns.get("ALL_COLOURS")
        ps = list(PALETTE) + ([k for k in table.keys() if isinstance(k, str) and k not in PALETTE] if isinstance(table, VDict) else [])
        try:
            al = W.I.getattr(fi, "aliases")
            ps += [k for k in al.keys() if k not in ALIASES and k not in ps] if isinstance(al, VDict) else []
        except PyExc:
            pass
        for n in ps + list(ALIASES):
            for how in ("format", "chain", "config"):
                try:
                    if how == "format":
                        r = W.call(fi, "format", n)
                    elif how == "chain":
                        r = W.attr(W.chain("c", label="X", color=n), "color")
                    else:
                        r = W.attr(W.I.instantiate(W.cls("chain.ChainConfig"), [], {"color": n}), "color")
                except PyExc as e:
                    r = e
                W.out.append((n, how, r))

    def jnames(run, s):
        if not decided(run, s):
            return
        for n, how, r in run.W.out:
            s.ob("names resolved")
            if isinstance(r, PyExc):
                s.bad(f"name:{how}", f"the colour {n!r} is rejected with {r.cname} ({how})", r.where)
            elif not isinstance(text(r), str):
                s.undecided(f"{n}: {show(to_term(r))[:80]}")
            elif not HEX6.match(text(r)):
                s.bad(f"name:{how}", f"the colour {n!r} resolves to {text(r)!r}, which is no six-digit hex code ({how})", "chainconsumer/color_finder")

    ctx.queue("palette and aliases", names, jnames)

    def unknown(W):
        fi = finder(W)
        W.mark()
        W.out = []
        for n in ("notacolour", "bluee", "reds", "zz", "0", "rgb"):
            for how in ("format", "chain"):
                try:
                    r = W.call(fi, "format", n) if how == "format" else W.attr(W.chain("c", label="X", color=n), "color")
                except PyExc as e:
                    r = e
                W.out.append((n, how, r))

    def junknown(run, s):
        if not decided(run, s):
            return
        for n, how, r in run.W.out:
            s.ob("unknown names")
            if not isinstance(r, PyExc):
                s.bad("unknown:accepted", f"the unknown colour {n!r} is accepted as {text(r)!r} ({how})", "chainconsumer/color_finder")
            elif how == "format" and n not in message(r):
                s.bad("unknown:message", f"the error for the unknown colour {n!r} does not name it: {message(r)[:80]!r}", r.where)

    ctx.queue("unknown names", unknown, junknown)

    HEXES = ("#000000", "#ffffff", "#FFFFFF", "#3b82f6", "#010203", "#0f0f0f", "#abc", "#fff", "#12345678", "blue", "k", "white", None)
    FACTORS = (0, 0.01, 0.3, 0.5, 0.7, 0.999, 1, 1.0, 1.2, 2, 3.7, 100, 1e6, -1, -0.5)

    def scales(W):
        fi = finder(W)
        W.mark()
        W.out = []
        for h in HEXES:
            for f in FACTORS:
                try:
                    r = W.call(fi, "scale_colour", h, f)
                except PyExc as e:
                    r = e
                W.out.append((h, f, r))

    def jscales(run, s):
        if not decided(run, s):
            return
        for h, f, r in run.W.out:
            s.ob("rescaled colours")
            if isinstance(r, PyExc):
                s.bad("scale:error", f"rescaling {h!r} by {f} fails with {r.cname}", r.where)
            elif not isinstance(text(r), str):
                s.undecided(f"rescaling {h!r} by {f}: {show(to_term(r))[:80]}")
            elif not HEX.match(text(r)):
                s.bad("scale", f"rescaling {h!r} by {f} gives {text(r)!r}, which is no hex colour", "chainconsumer/color_finder")

    ctx.queue("rescaling by constants", scales, jscales)

    def anyscale(W, h):
        fi = finder(W)
        W.mark()
        W.out = W.call(fi, "scale_colour", h, SV(mk("opt", "arg", "factor"), "scalar", nd=0))

    def janyscale(run, s):
        if not decided(run, s):
            return
        r = run.W.out
        t = to_term(r)
        if isinstance(text(r), str):
            s.check(bool(HEX.match(text(r))), "rescaled colours", "scale", f"rescaling gives {text(r)!r}, which is no hex colour", "chainconsumer/color_finder")
            return
        if t.op == "cat" and t.a[0] and t.a[0][0] == "#":
            for x in t.a[0][1:]:
                if isinstance(x, Term) and x.op == "fmt":
                    ok = byte_part(run.W, x.a[1], x.a[0])
                    s.ob("formatted channels")
                    if ok is False:
                        s.bad("scale:width", f"a channel is formatted with {x.a[0]!r}, which does not always give two hex digits", where(t))
                    elif ok is None:
                        s.undecided(f"channel {show(x)[:80]}")
                elif not isinstance(x, str):
                    s.undecided(f"channel {show(x)[:80]}")
        else:
            s.undecided(f"rescaled colour {show(t)[:80]}")

    for h in ("#3b82f6", "#000000", "#fff") if full else ("#3b82f6",):
        ctx.explore(f"rescaling {h} by any factor", lambda W, h=h: anyscale(W, h), janyscale, depth=3 if full else 1)

    # default colours of chains in the plots
    def many(W, method, n, explicit=(), select=None, none=(), kw=None, opts=None):
        W.exp = {}
        chains = []
        for i in range(n):
            o = {}
            if i in explicit:
                o["color"] = explicit[i]
            if i in none:
                o["color"] = None
            o.update(opts or {})
            chains.append(W.chain(f"c{i}", label=f"c{i}", cols=("A",), **o))
        cc = W.consumer(*chains)
        W.explicit = dict(explicit)
        W.n = n
        k = dict(kw or {})
        if select is not None:
            k["chains"] = VList([f"c{i}" for i in select])
        W.mark()
        W.call(W.attr(cc, "plotter"), method, **k)
        evs = W.calls()
        W.seen = {}
        for e in evs:
            if e.name not in DRAW:
                continue
            a = Artist(e)
            col = a.get("color", "c", "ecolor", "facecolor", "edgecolor")
            labs = {x.a[0] for t in a.terms() for x in leaves(t) if x.op == "col"}
            if col is not None and len(labs) == 1:
                W.seen.setdefault(labs.pop(), []).append((col, e))
        gen = W.call(finder(W), "next_colour")
        W.seq = []
        for i, x in enumerate(W.I.iterate(gen)):
            W.seq.append(text(x))
            if i >= n:
                break

    def jmany(run, s):
        if not decided(run, s):
            return
        W = run.W
        own = {}
        for lab, cs in W.seen.items():
            vals = {}
            for t, e in cs:
                v = t.a[0] if t.op == "c" else None
                if t.op != "c":
                    s.undecided(f"{run.name}: colour {show(t)[:60]}")
                else:
                    vals[v] = e
            own[lab] = vals
            s.ob("chains whose colour is followed")
            for v, e in vals.items():
                if not isinstance(v, str) or not HEX6.match(v):
                    s.bad("default:none", f"{run.name}: chain {lab} is drawn with the colour {v!r}", e.site)
        free = [f"c{i}" for i in range(W.n) if i not in W.explicit]
        got = [(lab, next(iter(own[lab]))) for lab in free if own.get(lab)]
        by = {}
        for lab, v in got:
            by.setdefault(v, []).append(lab)
        for v, ls in by.items():
            s.ob("default colours compared")
            if len(ls) > 1 and v is not None:
                s.bad("default:same", f"{run.name}: chains {', '.join(ls[:4])} without an explicit colour are all drawn in {v}", own[ls[1]][v].site)
        allhex = set(W.seq)
        pos = [W.seq.index(v) for lab, v in got if v in allhex]
        for lab, v in got:
            if isinstance(v, str) and v not in allhex and len(set(W.seq)) == len(W.seq) and len(W.seq) > W.n:
                s.bad("default:order", f"{run.name}: chain {lab} is drawn in {v}, which is not among the first palette colours", own[lab][v].site)
        if pos != sorted(pos):
            s.bad("default:order", f"{run.name}: default colours are not handed out in registration order", "chainconsumer/chainconsumer")
        for i, cexp in W.explicit.items():
            v = own.get(f"c{i}")
            if v:
                s.check(set(v) == {cexp}, "explicit colours", "explicit", f"{run.name}: chain c{i} has the explicit colour {cexp} and is drawn in {sorted(map(str, v))}", next(iter(v.values())).site)

    for m in ("plot_walks", "plot_distributions", "plot_summary", "plot"):
        ctx.queue(f"{m} 3 chains", lambda W, m=m: many(W, m, 3), jmany)
        ctx.queue(f"{m} 5 chains, some explicit", lambda W, m=m: many(W, m, 5, explicit={1: "#123456", 3: "#3b82f7"}), jmany)
        ctx.queue(f"{m} colour None", lambda W, m=m: many(W, m, 4, none=(0, 1, 2)), jmany)
        ctx.queue(f"{m} 6 chains, three selected", lambda W, m=m: many(W, m, 6, select=(4, 1, 2)), jmany)
    ctx.queue("plot_walks 81 chains", lambda W: many(W, "plot_walks", 81), jmany)
    ctx.queue("plot_distributions 80 chains", lambda W: many(W, "plot_distributions", 80), jmany)
    ctx.queue("plot_distributions unsmoothed 80 chains", lambda W: many(W, "plot_distributions", 80, opts={"smooth": 0}), jmany)
    if full:
        ctx.queue("plot_summary 80 chains", lambda W: many(W, "plot_summary", 80), jmany)
        for n in range(1, 40, 6):
            ctx.queue(f"plot_walks {n} chains", lambda W, n=n: many(W, "plot_walks", n), jmany)
    ctx.flush()


# ---------------------------------------------------------------------------------------------- C15
LOSSY = {"round", "around", "rint", "floor", "ceil", "trunc", "fix", "clip", "abs", "absolute", "fabs", "int", "float32", "float16", "sign", "square", "digitize", "nan_to_num"}


def ranks(arg, post):
    """does the largest entry of arg sit in the row of the largest log posterior? True/False/None"""
    if arg is post:
        return True
    if not isinstance(arg, Term):
        return None
    if arg.op == "call" and arg.a[1]:
        n = arg.a[0].split(".")[-1]
        inner = dict(arg.a[1]).get("a", arg.a[1][0][1])
        if n in ("asarray", "array", "to_numpy", "float", "float64", "copy", "exp"):
            return ranks(inner, post)
        if n == "astype":
            to = str(arg.a[1][-1][1].a[0]) if isinstance(arg.a[1][-1][1], Term) and arg.a[1][-1][1].a else ""
            if any(k in to for k in ("float64", "float128", "double", "longdouble")) or to in ("float", "f8"):
                return ranks(inner, post)
            if any(k in to for k in ("float32", "float16", "int", "single", "half")) or to in ("f4", "f2", "f"):
                return False if ranks(inner, post) else None
            return None
        if n in LOSSY:
            return False if ranks(inner, post) else None
        return None
    if arg.op == "un" and arg.a[0] == "-" and ranks(arg.a[1], post):
        return False
    if arg.op == "bin" and arg.a[0] in ("+", "-", "*", "/"):
        x, y = arg.a[1], arg.a[2]
        def other(q):
            while isinstance(q, Term) and q.op == "call" and q.a[1] and q.a[0].split(".")[-1] in ("log", "log10", "log2", "exp", "sqrt", "asarray", "array", "to_numpy"):
                q = dict(q.a[1]).get("a", q.a[1][0][1])
            return isinstance(q, Term) and q.op == "col" and q is not post
        if other(y) and ranks(x, post) or other(x) and ranks(y, post):
            return False
        if arg.a[0] in ("+", "-") and ranks(x, post) and (num(y) is not None or y.op == "call" and y.a[0].split(".")[-1] in ("max", "min", "nanmax", "amax", "mean", "median")):
            return True
        if arg.a[0] in ("*", "/") and ranks(x, post) and num(y) is not None:
            return num(y) > 0
    return None


def row_of(t, post):
    """(column leaf, how the row is chosen, verdict) for one entry read from a column; verdict True/False/None (right row, definitely wrong row, unknown)"""
    def bare(k):
        while isinstance(k, Term) and k.op == "call" and k.a[0].split(".")[-1] in ("int", "item") and k.a[1]:
            k = k.a[1][0][1]
        return k

    if t.op == "row":
        col, how, key, index = t.a[0], t.a[1], bare(t.a[2]), t.a[3] if len(t.a) > 3 else None
        if how == "label-of-max":
            arg = key.a[1][0][1] if key.op == "call" and key.a[1] else None
            if key.a[0].endswith("idxmax") and arg is not post and isinstance(arg, Term) and ranks(arg, post) is not None:
                return col, "max", ranks(arg, post) and index != "dup"
            if key.a[0].endswith("idxmin") or arg is not post:
                return col, key, False if arg is None or arg.op == "col" else None
            return col, "max", (False if index == "dup" else True)
        if how == "loc" and key.op == "call" and key.a[0].split(".")[-1] in ("argmax", "argmin", "nanargmax", "nanargmin"):
            return col, key, False
        return col, key, None
    if t.op == "item" and len(t.a) == 2:
        col, key = t.a[0], bare(t.a[1])
        if isinstance(key, Term) and key.op == "call" and key.a[1]:
            f = key.a[0].split(".")[-1]
            arg = dict(key.a[1]).get("a", key.a[1][0][1])
            if f in ("argmax", "nanargmax") and arg is post:
                return col, "max", True
            if f in ("argmin", "nanargmin", "argmax", "nanargmax") and arg.op == "col":
                return col, key, False
            if f in ("argmax", "nanargmax") and isinstance(arg, Term) and ranks(arg, post) is not None:
                return col, "max", ranks(arg, post)
        if col.op == "sorted" and num(key) in (0, -1) and isinstance(col.a[1], Term) and col.a[1].op == "list" and len(col.a[1].a[0]) == 1 and col.a[2].op == "c":
            by, asc = col.a[1].a[0][0], bool(col.a[2].a[0])
            return col.a[0], "max" if by is post else key, (by is post and (num(key) == -1) == asc) if by.op == "col" else None
        if isinstance(key, Term) and num(key) is not None and col.op == "col":
            return col, key, False
        return col, key, None
    if t.op == "call" and t.a[0].split(".")[-1] in ("max", "nanmax", "amax", "min", "mean", "median"):
        arg = dict(t.a[1]).get("a")
        if arg is post:
            return post, "max", t.a[0].split(".")[-1].endswith("max")
        if isinstance(arg, Term) and arg.op == "col":
            return arg, t, False
    if t.op == "call" and t.a[0].split(".")[-1] == "float" and t.a[1]:
        return row_of(t.a[1][0][1], post)
    return None, None, None


def C15(ctx):
    """Def-use terms of the reported best-fit point and of every marker drawn for it: log posterior and each coordinate must be the entry of their own column at the row where the log
    posterior column is largest. Positional and label-based row access are distinguished, and the table's index is varied (default, filtered, reordered, duplicated)."""
    full = ctx.tier == "thorough"

    def entry(s, run, t, p, post, what, site=None):
        t = t if isinstance(t, Term) else to_term(t)
        col, how, ok = row_of(t, post)
        s.ob("entries of the best-fit point")
        if ok is None:
            s.undecided(f"{run.name}: {what} {p}: {show(t)[:120]}")
            return
        if not ok:
            s.bad(f"row:{what}", f"{run.name}: {what} {p} is not read from the row with the largest log posterior: {show(t, 4)[:160]}", site or where(t))
            return
        if col.op == "col" and col.a[1] != p:
            s.bad(f"column:{what}", f"{run.name}: {what} {p} is read from the column {col.a[1]!r}", site or where(t))

    def build(W, index, cols, post, pname, weight, opts, call, n=2):
        chains = []
        W.post = {}
        for i in range(n):
            lab = f"X{i + 1}"
            cs = cols if i == 0 else tuple(reversed(cols))
            f = W.table(lab, cs, weight=weight, posterior=post if i == 0 else True, index=index, pname=pname, extra=("K",) if opts.get("color_param") else ())
            o = {**opts, **({"posterior_column": pname} if pname != "log_posterior" else {})}
            chains.append(W.chain(f"chain {lab}", label=lab, table=f, **o))
            W.post[lab] = mk("col", lab, pname) if (post or i) else None
        W.all = chains
        W.paramset = set(cols)
        W.cc = W.consumer(*chains)
        W.mark()
        W.ret = call(W)

    def jpoint(run, s):
        if not decided(run, s):
            return
        W = run.W
        for lab, pt in W.ret:
            post = W.post[lab]
            if post is None:
                s.check(pt is None, "chains without a log posterior", "without", f"{run.name}: a best-fit point is reported for a chain without a log posterior", "chainconsumer/chain")
                continue
            if pt is None:
                s.bad("missing", f"{run.name}: no best-fit point is reported for a chain with a log posterior", "chainconsumer/chain")
                continue
            entry(s, run, W.attr(pt, "log_posterior"), post.a[1], post, "log posterior")
            co = W.attr(pt, "coordinate")
            ks = co.keys()
            s.check(set(ks) >= W.paramset, "coordinate names", "coordinates", f"{run.name}: the best-fit point lacks the coordinates {sorted(W.paramset - set(ks))}", "chainconsumer/chain")
            for k in ks:
                entry(s, run, co.get(k), k, post, "coordinate")
            vec = W.attr(pt, "vec_coordinate")
            t = to_term(vec)
            if t.op == "list" and len(t.a[0]) == len(ks):
                for k, x in zip(ks, t.a[0]):
                    entry(s, run, x, k, post, "vector coordinate")

    def jdraw(run, s):
        if not decided(run, s):
            return
        W = run.W
        for e in W.calls():
            if e.name not in DRAW:
                continue
            a = Artist(e)
            labs = {x.a[0] for t in a.terms() for x in leaves(t) if x.op == "col"}
            isp = False
            for q in ("x", "y", "xmin", "ymin"):
                t = a.args.get(q)
                if not isinstance(t, Term):
                    continue
                while t.op in ("list", "reshape", "ravel", "newaxis") and t.a:
                    t = t.a[0][0] if t.op == "list" and t.a[0] else t.a[0]
                    if not isinstance(t, Term):
                        break
                if not isinstance(t, Term):
                    continue
                cl = [x for x in leaves(t) if x.op == "col"]
                if t.op in ("item", "row") and t.a[0].op == "col" and not (isinstance(t.a[1], Term) and t.a[1].op == "slice") and len({x.a[0] for x in cl}) == 1:
                    lab = cl[0].a[0]
                    if W.post.get(lab) is None:
                        s.bad("drawn without", f"{run.name}: a point is drawn for a chain without a log posterior", e.site)
                        continue
                    isp = True
                    ax = a.name
                    entry(s, run, t, t.a[0].a[1], W.post[lab], "marker", e.site)
            if isp:
                s.ob("markers drawn")

    def pts(W):
        return [(ch.label, W.call(ch, "get_max_posterior_point")) for ch in W.all]

    def posts(W):
        r = W.call(W.attr(W.cc, "analysis"), "get_max_posteriors")
        return [(ch.label, r.get(W.attr(ch, "name")) if r.has(W.attr(ch, "name")) else None) for ch in W.all]

    def one(W):
        r = W.call(W.attr(W.cc, "analysis"), "get_max_posteriors", chains=VDict([(W.attr(W.all[1], "name"), W.all[1])]))
        return [(W.all[1].label, r.get(W.attr(W.all[1], "name")))]

    cases = []
    for index in ("range", "any", "dup", "perm"):
        for cols in (("A", "B"), ("B", "A", "D")):
            for post in (True, False):
                cases.append((index, cols, post, "log_posterior", True, {}))
        cases.append((index, ("A", "B"), True, "lp", True, {}))
        cases.append((index, ("A", "B"), True, "log_posterior", False, {}))
        cases.append((index, ("A", "B"), True, "log_posterior", True, {"plot_cloud": True, "color_param": "K"}))
        cases.append((index, ("A", "B"), True, "log_posterior", True, {"shift_params": False, "walkers": 2}))
    for cs in cases:
        nm = f"index {cs[0]} columns {''.join(cs[1])}{'' if cs[2] else ' no posterior'} {cs[3]}{'' if cs[4] else ' no weights'} {','.join(cs[5])}"
        for hn, h in (("point", pts), ("maxima", posts)) + ((("one maximum", one),) if full else ()):
            ctx.queue(f"{hn} {nm}", lambda W, cs=cs, h=h: build(W, *cs, call=h), jpoint)

    def drawn(W, m, cs, o):
        build(W, *cs[:5], opts={**o}, call=lambda W: W.call(W.attr(W.cc, "plotter"), m))

    for index in ("range", "dup", "any"):
        for o in ({"plot_point": True}, {"plot_point": True, "plot_contour": False}, {"plot_point": True, "plot_cloud": True}):
            for m in PLOTS:
                for post in (True, False):
                    ctx.queue(f"{m} {index} {','.join(o)} {post}", lambda W, m=m, o=o, index=index, post=post: drawn(W, m, (index, ("A", "B"), post, "log_posterior", True), o), jdraw)

    def free(W, index):
        f = W.table("X1", ("A", "B"), index=index)
        ch = W.chain("chain", label="X1", table=f, plot_point=True)
        W.post = {"X1": mk("col", "X1", "log_posterior")}
        W.mark()
        ax = W.I.lib.new_axes() if hasattr(W.I.lib, "new_axes") else ExtObj("Axes", "free", meta={"row": 0, "col": 0, "nrows": 1, "ncols": 1})
        W.I.call(W.I.load("chainconsumer.plotting").ns["plot_point"], [ax, ch, "A", "B"], {})

    for index in ("range", "dup"):
        ctx.queue(f"plot_point {index}", lambda W, index=index: free(W, index), jdraw)
    ctx.flush()
    ctx.explore("conditions", lambda W: build(W, "dup", ("A", "B"), True, "log_posterior", True, {}, pts), jpoint)


# ---------------------------------------------------------------------------------------------- C16
def raw_table(W, label, cols=("A", "B"), extra=(), **kw):
    """a table about whose entries nothing is assumed; returns (table, classes)"""
    f = W.table(label, cols, extra=extra, **kw)
    cl = getattr(W.I, "classes", None) or Classes(W)
    for v in f.cols.values():
        W.I.facts[v.term].pop("finite", None)
        W.I.facts[v.term].pop("interval", None)
        cl.column(v, "pos", "pos")
    return f, cl


def C16(ctx):
    """Abstract interpretation of the constructor in the domain of value classes (which of positive / zero / negative / NaN / infinite entries a column contains, how many rows there are):
    for every option combination, every column is given each forbidden class in turn and every further requirement is broken in turn; the construction must end in an exception. The
    accepted case without weights is followed to the weight column it creates."""
    full = ctx.tier == "thorough"
    base = [
        ("default", {}, {}), ("shifted", {"shift_params": True}, {}), ("grid", {"grid": True}, {}), ("walkers", {"walkers": 2}, {}), ("multimodal", {"multimodal": True}, {}),
        ("kde", {"kde": True}, {}), ("unsmoothed", {"smooth": 0}, {}), ("cloud", {"plot_cloud": True, "color_param": "K"}, {"extra": ("K",)}),
        ("weight name", {"weight_column": "w2"}, {"wname": "w2"}), ("posterior name", {"posterior_column": "lp"}, {"pname": "lp"}),
        ("counts", {"num_free_params": 2, "num_eff_data_points": 30.0}, {}), ("points only", {"plot_contour": False, "plot_point": True}, {}),
        ("hdi", {"statistics": "HDI"}, {}), ("no posterior", {}, {"posterior": False}), ("no weights", {}, {"weight": False}), ("labels", {"index": "dup"}, {}),
        ("weights first", {}, {"order": ["weight", "log_posterior", "B", "A"]}), ("one parameter", {}, {"cols": ("A",)}), ("more parameters", {}, {"cols": ("A", "B", "D", "E")}),
    ]

    def build(W, opts, tk, change):
        tk = dict(tk)
        o = dict(opts)
        if "index" in o:
            tk["index"] = o.pop("index")
        f, cl = raw_table(W, "X", **tk)
        cl.scalar(f.nrows.term, 12)
        W.mark()
        W.made = None
        name = change(W, f, cl, o)
        for k in ("statistics",):
            if isinstance(o.get(k), str):
                o[k] = S(W, o[k])
        W.classes = cl
        W.atoms0 = set(W.I.atoms)
        W.caught = None
        try:
            W.made = W.I.instantiate(W.cls("chain.Chain"), [], {"samples": f, "name": "chain", **o})
        except PyExc as e:
            W.caught = e

    def judge(what, key):
        def j(run, s):
            if not decided(run, s):
                return
            W = run.W
            s.ob("invalid inputs")
            if W.caught is not None:
                return
            open_ = [t for t, _ in W.classes.unknown] + [t for t in W.I.atoms if t not in W.atoms0]
            if open_:
                s.undecided(f"{run.name}: depends on {show(open_[0])[:100]}")
                return
            s.bad(key, f"{run.name}: a chain with {what} is accepted", "chainconsumer/chain")
        return j

    def ok(run, s):
        if not decided(run, s):
            return
        W = run.W
        if W.caught is not None:
            s.undecided(f"{run.name}: valid chain rejected with {W.caught.cname} {message(W.caught)[:80]}")
            return
        s.ob("valid inputs")
        if "no weights" in run.name or "without weights" in run.name:
            w = W.attr(W.made, "weights")
            t = to_term(w)
            try:
                v = W.classes.ev(t)
                v = set(v.flat()) if hasattr(v, "flat") else {v}
            except Exception:  # noqa: BLE001
                s.undecided(f"weights {show(t)[:80]}")
                return
            s.check(v in ({1.0}, {1}), "default weights", "default weight", f"{run.name}: a chain without weights gets the weights {v}", where(t))

    def nothing(W, f, cl, o):
        pass

    for bn, o, tk in base:
        ctx.queue(f"{bn}: valid", lambda W, o=o, tk=tk: build(W, o, tk, nothing), ok)
        cols = list(tk.get("cols", ("A", "B"))) + list(tk.get("extra", ()))
        wn, pn = tk.get("wname", "weight"), tk.get("pname", "log_posterior")
        if tk.get("weight", True):
            cols.append(wn)
        if tk.get("posterior", True):
            cols.append(pn)

        def Q(what, key, change, bn=bn, o=o, tk=tk):
            ctx.queue(f"{bn}: {what}", lambda W: build(W, o, tk, change), judge(what, key))

        for col in cols:
            for k, kn in (("nan", "NaN"), ("inf", "infinite"), ("-inf", "negative infinite")):
                def ch(W, f, cl, o, col=col, k=k):
                    cl.column(f.cols[col], "pos", k)
                Q(f"a {kn} entry in the column {col}", f"finite:{kn}:{'weight' if col == wn else 'posterior' if col == pn else 'parameter'}", ch)
        if tk.get("weight", True):
            for k, kn in (("zero", "a weight of zero"), ("neg", "a negative weight")):
                def ch(W, f, cl, o, k=k, wn=wn):
                    cl.column(f.cols[wn], "pos", k)
                Q(kn, f"weight:{k}", ch)

            def ch(W, f, cl, o, wn=wn):
                cl.column(f.cols[wn], "neg", "neg")
            Q("only negative weights", "weight:all", ch)

        def ch(W, f, cl, o):
            f.nrows = 0
            for v in f.cols.values():
                v.length = 0
                cl.leaf[v.term] = type(cl.leaf[v.term])(())
        Q("no rows", "empty", ch)

        def ch(W, f, cl, o):
            n = SV(mk("col", "X", "seven"), "series", length=f.nrows, nd=1)
            cl.column(n, "pos", "pos")
            f.cols[7] = n
        Q("a non-string column name", "column name", ch)

        def ch(W, f, cl, o):
            n = SV(mk("col", "X", "seven"), "series", length=f.nrows, nd=1)
            cl.column(n, "pos", "pos")
            f.cols = {7: n, **f.cols}
        Q("a non-string first column name", "column name", ch)

        def ch(W, f, cl, o):
            o["weight_column"] = "other weight"
        Q("a missing custom weight column", "weight column", ch)
        for w in (5, 7, 24):
            def ch(W, f, cl, o, w=w):
                o["walkers"] = w
            Q(f"12 rows and {w} walkers", "walkers", ch)

        def ch(W, f, cl, o):
            o["color_param"] = "nowhere"
        Q("a missing colour column", "colour column", ch)
        for opt in ("num_free_params", "num_eff_data_points"):
            for v in (float("nan"), float("inf"), float("-inf")):
                def ch(W, f, cl, o, opt=opt, v=v):
                    o[opt] = v
                Q(f"{opt}={v}", f"count:{opt}", ch)
        for st in ("MAX", "MEAN", "CUMULATIVE", "MAX_CENTRAL"):
            def ch(W, f, cl, o, st=st):
                o["multimodal"] = True
                o["statistics"] = st
            Q(f"multimodal and the statistic {st}", "multimodal", ch)
    ctx.flush()


# ---------------------------------------------------------------------------------------------- C17
WEIGHTLIKE = ("weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors")


def C17(ctx):
    """Flow of the weight and log-posterior columns: for tables with configured and standard names in several letter cases and column orders, the parameter lists, the default columns of
    every summary, table, covariance, diagnostic and best-fit point and the labels and data of every figure are derived by abstract interpretation and must not contain them; verdicts of the
    diagnostics must not depend on them. With mean-shifting, the terms of both columns must be the caller's columns unchanged."""
    full = ctx.tier == "thorough"
    cases = []
    for w in WEIGHTLIKE:
        for c in (w.upper(), w.capitalize(), w.title(), w):
            cases.append((f"column {c}", ["A", c, "B", "log_posterior", "weight"] if c not in ("log_posterior", "weight") else ["weight", "A", "log_posterior", "B"], {}))
    cases += [
        ("configured names", ["w2", "A", "lnp", "B"], {"weight_column": "w2", "posterior_column": "lnp"}),
        ("configured and standard names", ["w2", "A", "Weight", "lnp", "B", "LOG_POSTERIOR"], {"weight_column": "w2", "posterior_column": "lnp"}),
        ("configured weight only", ["A", "B", "mult", "log_posterior"], {"weight_column": "mult"}),
        ("configured posterior only", ["A", "chi", "B", "weight"], {"posterior_column": "chi"}),
        ("standard names", ["A", "B", "weight", "log_posterior"], {}),
        ("shifted", ["A", "B", "weight", "log_posterior"], {"shift_params": True}),
        ("shifted configured", ["lnp", "A", "w2", "B"], {"shift_params": True, "weight_column": "w2", "posterior_column": "lnp"}),
        ("shifted and Weights", ["A", "B", "Weights", "weight", "log_posterior"], {"shift_params": True}),
        ("upper case configured", ["A", "B", "W", "LP"], {"weight_column": "W", "posterior_column": "LP"}),
    ]
    seen = set()
    cases = [c for c in cases if not (c[0] in seen or seen.add(c[0]))]

    def make(W, names, opts, two=True):
        def tab(lab):
            d = {}
            n = SV(mk("nrows", lab), "scalar", nd=0)
            for nm in names:
                t = mk("col", lab, nm)
                d[nm] = SV(t, "series", length=n, nd=1)
                W.I.facts[t] = {"finite": True}
                if nm == opts.get("weight_column", "weight"):
                    W.I.facts[t]["interval"] = (1e-300, 1e300)
            return VFrame(d, n, index="range")
        W.names = names
        W.params = [n for n in names if n in ("A", "B")]
        W.other = [n for n in names if n not in ("A", "B")]
        W.all = [W.chain(f"chain {l}", label=l, table=tab(l), walkers=2, num_free_params=2, num_eff_data_points=30.0, **opts) for l in (("X1", "X2") if two else ("X1",))]
        W.cc = W.consumer(*W.all)
        W.opts = opts
        W.mark()

    def lists(W, names, opts):
        make(W, names, opts)
        ch = W.all[0]
        out = W.out = []

        def put(what, fn):
            try:
                v = fn()
            except PyExc as e:
                if e.implicit:
                    raise
                v = None
            if v is not None:
                out.append((what, v))
        put("data_columns", lambda: list(W.I.iterate(W.attr(ch, "data_columns"))))
        put("plotting_columns", lambda: list(W.I.iterate(W.attr(ch, "plotting_columns"))))
        put("data_samples", lambda: list(W.attr(ch, "data_samples").cols))
        for m in ("get_covariance", "get_correlation"):
            put(m, lambda m=m: list(W.I.iterate(W.attr(W.call(ch, m), "columns"))))
        an = W.attr(W.cc, "analysis")

        def summ():
            r = W.call(an, "get_summary")
            return r.get("chain X1").keys()
        put("get_summary", summ)
        put("best-fit point", lambda: W.attr(W.call(ch, "get_max_posterior_point"), "coordinate").keys())
        for m in ("get_latex_table", "get_covariance_table", "get_correlation_table"):
            put(m, lambda m=m: W.call(an, m, *([ch] if "latex" not in m else [])))
        di = W.attr(W.cc, "diagnostic")
        for m in ("gelman_rubin", "geweke"):
            put(m, lambda m=m: W.call(di, m, ch))

    def jlists(run, s):
        if not decided(run, s):
            return
        W = run.W
        for what, v in W.out:
            s.ob("parameter lists")
            if isinstance(v, list):
                bad = [x for x in v if x in W.other]
                if bad:
                    s.bad(f"list:{what}", f"{run.name}: {what} has the column {bad[0]!r}", "chainconsumer/chain")
                if what in ("data_columns", "data_samples", "get_covariance", "get_summary") and [x for x in v if x not in W.other] != W.params:
                    s.bad(f"lost:{what}", f"{run.name}: {what} is {v} for the parameters {W.params}", "chainconsumer/chain")
            elif isinstance(v, Inst):
                t = to_term(W.attr(v, "passed"))
                for x in leaves(t):
                    if x.op == "col" and x.a[1] in W.other and not opts_shift(W):
                        s.bad(f"verdict:{what}", f"{run.name}: the verdict of {what} depends on the column {x.a[1]!r}", where(t))
                        break
            else:
                t = to_term(v)
                txt = v if isinstance(v, str) else "".join(str(x) for y in subterms(t) for x in _flat_str(y))
                cells = re.split(r"[&\\n\\\\]+", txt)
                for n in W.other:
                    if any(q.strip() in (n, n.replace("_", r"\_")) for q in cells):
                        s.bad(f"table:{what}", f"{run.name}: {what} has an entry for the column {n!r}", "chainconsumer/analysis")
        for ch in W.all:
            f = ch.f["samples"]
            for n in W.other:
                t = to_term(f.cols[n])
                s.ob("weight and posterior columns followed")
                own = mk("col", ch.label, n)
                if t is not own and own in leaves(t) and t.op in ("bin", "mutated", "call", "un"):
                    s.bad("shift" if W.opts.get("shift_params") else "altered", f"{run.name}: building the chain changes the column {n!r} to {show(t)[:100]}", where(t))
                elif t is not own:
                    s.undecided(f"{run.name}: column {n}: {show(t)[:80]}")

    for nm, names, opts in cases:
        ctx.queue(nm, lambda W, names=names, opts=opts: lists(W, names, opts), jlists)

    def fig(W, names, opts, m):
        make(W, names, opts)
        W.call(W.attr(W.cc, "plotter"), m, **({"plot_weights": False, "plot_posterior": False} if m == "plot_walks" else {}))

    def jfig(run, s):
        if not decided(run, s):
            return
        W = run.W
        for e in W.calls():
            if e.name in ("set_xlabel", "set_ylabel", "set_title", "text", "suptitle", "set_label"):
                s.ob("labels")
                for t in list(e.d.get("targs") or [])[:3] + list((e.d.get("tkw") or {}).values()):
                    if isinstance(t, Term) and t.op == "c" and t.a[0] in W.other:
                        s.bad(f"figure:{run.name.split()[0]}", f"{run.name}: the figure has a panel labelled {t.a[0]!r}", e.site)
        for e in W.events("subplots"):
            s.ob("figures")

    sel = cases if full else [c for c in cases if c[0] in ("configured names", "configured and standard names", "shifted", "column Weights", "column LOG_POSTERIORS", "column posterior", "standard names")]
    for nm, names, opts in sel:
        for m in PLOTS:
            ctx.queue(f"{m} {nm}", lambda W, names=names, opts=opts, m=m: fig(W, names, opts, m), jfig)
    ctx.flush()


def opts_shift(W):
    return bool(W.opts.get("shift_params"))  # the shift itself uses the weights


def _flat_str(t):
    for y in t.a:
        if isinstance(y, str):
            yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, str):
                    yield z


# ---------------------------------------------------------------------------------------------- C18
class Fuzzy(Exception):
    pass


def row_set(t, leaf, nrows, N):
    """indices of the rows of `leaf` that `t` consists of, in order, when the table has N rows"""
    def ev(x):
        if x is None:
            return None
        if not isinstance(x, Term):
            return x
        if x.op == "nrows":
            return N
        n = num(x)
        if n is not None:
            return n
        if x.op == "c":
            return x.a[0]
        if x.op == "bin":
            p, q = ev(x.a[1]), ev(x.a[2])
            return {"+": lambda: p + q, "-": lambda: p - q, "*": lambda: p * q, "/": lambda: p / q, "//": lambda: p // q, "%": lambda: p % q}[x.a[0]]()
        if x.op == "un" and x.a[0] == "-":
            return -ev(x.a[1])
        if x.op == "call" and x.a[0].split(".")[-1] in ("int", "float", "floor", "ceil", "round") and x.a[1]:
            import math
            return {"int": int, "float": float, "floor": math.floor, "ceil": math.ceil, "round": round}[x.a[0].split(".")[-1]](ev(x.a[1][0][1]))
        if x.op == "call" and x.a[0].split(".")[-1] in ("len", "size") and x.a[1]:
            return len(row_set(x.a[1][0][1], leaf, nrows, N))
        raise Fuzzy(x.op)

    if t is leaf:
        return list(range(N))
    if t.op == "part":
        r = row_set(t.a[0], leaf, nrows, N)
        i, k = ev(t.a[1]), ev(t.a[2])
        n = len(r)
        sizes = [n // k + (1 if j < n % k else 0) for j in range(k)]
        lo = sum(sizes[:i])
        return r[lo:lo + sizes[i]]
    if t.op == "item" and isinstance(t.a[1], Term) and t.a[1].op == "slice":
        r = row_set(t.a[0], leaf, nrows, N)
        lo, hi, st = (ev(x) for x in t.a[1].a)
        return r[slice(None if lo is None else int(lo), None if hi is None else int(hi), None if st is None else int(st))]
    if t.op == "call" and t.a[0].split(".")[-1] in ("asarray", "array", "to_numpy", "copy", "ravel") and t.a[1]:
        return row_set(t.a[1][0][1], leaf, nrows, N)
    raise Fuzzy(t.op)


CARRIED = {
    "summary_area": 0.5, "linestyle": "--", "linewidth": 2.5, "show_contour_labels": True, "shade": False, "shade_alpha": 0.25, "shade_gradient": 1.5, "bar_shade": False, "bins": 33,
    "kde": 1.2, "smooth": 2, "cmap": "magma", "num_cloud": 500, "plot_cloud": True, "plot_contour": False, "plot_point": True, "marker_style": "x", "marker_size": 22.0, "marker_alpha": 0.7,
    "zorder": 15, "num_free_params": 3, "num_eff_data_points": 55.0, "power": 2.0, "show_label_in_legend": False, "histogram_relative_height": 0.8, "color_param": "K",
    "weight_column": "wgt", "posterior_column": "lnp", "multimodal": True,
}


def C18(ctx):
    """Def-use terms of the tables of the chains returned by divide: for every walker count each column must be the caller's column restricted to a block of rows, and the blocks, evaluated
    as row sets of an abstract table, must follow one another and cover every row once. Every option is given a distinguishable value in turn and together and compared on every piece."""
    full = ctx.tier == "thorough"

    def build(W, w, opts, tk=None, cols=("A", "B")):
        o = dict(opts)
        k = {"extra": ("K",) if o.get("color_param") else (), "wname": o.get("weight_column", "weight"), "pname": o.get("posterior_column", "log_posterior"), **(tk or {})}
        f = W.table("X", cols, **k)
        W.colsX = list(f.cols)
        W.src = {}
        if "sigmas" in o:
            o["sigmas"] = VList(list(o["sigmas"]))
        if isinstance(o.get("statistics"), str):
            o["statistics"] = S(W, o["statistics"])
        W.set_opts = o
        W.ch = W.chain("the chain", label="X", table=f, walkers=w, **o)
        W.before = {n: to_term(v) for n, v in W.ch.f["samples"].cols.items()}
        W.w = w
        W.mark()
        W.out = list(W.I.iterate(W.call(W.ch, "divide")))

    def judge(run, s):
        if not decided(run, s):
            return
        W = run.W
        I = W.I
        s.check(len(W.out) == W.w, "divisions", "count", f"{run.name}: {len(W.out)} chains for {W.w} walkers", "chainconsumer/chain")
        names = []
        rows = {n: [] for n in W.before}
        for i, p in enumerate(W.out):
            nm = W.attr(p, "name")
            names.append(text(nm))
            s.ob("pieces")
            s.check(W.attr(p, "walkers") == 1, "walker counts", "walkers", f"{run.name}: piece {i} has {W.attr(p, 'walkers')} walkers", "chainconsumer/chain")
            f = W.attr(p, "samples")
            if set(f.cols) != set(W.before):
                s.bad("columns", f"{run.name}: piece {i} has the columns {sorted(map(str, f.cols))} instead of {sorted(W.before)}", "chainconsumer/chain")
                continue
            for n, v in f.cols.items():
                t = to_term(v)
                s.ob("columns of pieces")
                if rows[n] is None:
                    continue
                own = W.before[n]
                try:
                    rows[n].append(row_set(t, own, None, 12))
                except Fuzzy as e:
                    rows[n] = None
                    lv = {x for x in leaves(t) if x.op == "col"}
                    if lv and not (lv & {x for x in leaves(own) if x.op == "col"}):
                        s.bad("values", f"{run.name}: the column {n} of a piece is computed from {show(t)[:80]}", where(t))
                    elif own in subterms(t) and t.op in ("bin", "un") or (t.op == "part" and t.a[0].op == "bin" and t.a[0] is not own and own in subterms(t.a[0])) or (t.op == "bin" and any(
                            isinstance(x, Term) and x.op == "part" and x.a[0] is own for x in t.a[1:])):
                        s.bad("values", f"{run.name}: the values of column {n} are changed in a piece: {show(t)[:80]}", where(t))
                    elif t.op in ("bcast", "c"):
                        s.bad("values", f"{run.name}: the column {n} of a piece is replaced by a constant", where(t))
                    else:
                        s.undecided(f"{run.name}: column {n}: {e} {show(t)[:80]}")
            for k, v in W.set_opts.items():
                if k == "shift_params":
                    continue
                got = W.attr(p, k)
                s.ob("options carried over")
                if not same_value(I, got, W.attr(W.ch, k)):
                    s.bad(f"option:{k}", f"{run.name}: piece {i} has {k}={got!r} instead of {W.attr(W.ch, k)!r}", "chainconsumer/chain")
        if all(isinstance(n, str) for n in names):
            s.check(len(set(names)) == len(names), "names", "names", f"{run.name}: the pieces are named {names}", "chainconsumer/chain")
            for i, n in enumerate(names):
                d = re.findall(r"\d+", n.replace("the chain", ""))
                if "the chain" not in n or not d or int(d[-1]) not in (i, i + 1):
                    s.bad("names", f"{run.name}: piece {i} is named {n!r}", "chainconsumer/chain")
        for n, r in rows.items():
            if r is None or len(r) != W.w:
                continue
            s.ob("row partitions")
            cat = [x for y in r for x in y]
            if sorted(cat) != list(range(12)):
                s.bad("rows", f"{run.name}: of 12 rows of column {n} the pieces hold {r}", where(to_term(W.out[0].f["samples"].cols[n])))
            elif cat != list(range(12)):
                s.bad("order", f"{run.name}: the rows of column {n} are dealt out as {r}", where(to_term(W.out[0].f["samples"].cols[n])))
        lens = {tuple(map(tuple, r)) for r in rows.values() if r is not None}
        if len(lens) > 1:
            s.bad("rows", f"{run.name}: different columns are split differently", "chainconsumer/chain")

    for w in (2, 3, 4, 6, 12):
        ctx.queue(f"{w} walkers", lambda W, w=w: build(W, w, {}), judge)
        ctx.queue(f"{w} walkers, other index", lambda W, w=w: build(W, w, {}, {"index": "dup"}), judge)
    for nm, o in ((k, {k: v}) for k, v in CARRIED.items()):
        o = dict(o)
        ctx.queue(f"option {nm}", lambda W, o=o: build(W, 3, o), judge)
    ctx.queue("all options", lambda W: build(W, 3, {**CARRIED, "statistics": "HDI", "sigmas": (0.0, 0.5, 1.5)}), judge)
    for st in ("MAX", "HDI", "MEAN", "CUMULATIVE", "MAX_CENTRAL"):
        ctx.queue(f"statistic {st}", lambda W, st=st: build(W, 2, {"statistics": st}), judge)
    ctx.queue("sigmas", lambda W: build(W, 2, {"sigmas": (0.0, 0.5, 1.5)}), judge)
    ctx.queue("colour", lambda W: build(W, 2, {}, None), judge)
    ctx.queue("shifted", lambda W: build(W, 3, {"shift_params": True}), judge)
    ctx.queue("no posterior", lambda W: build(W, 3, {}, {"posterior": False}), judge)
    ctx.queue("no weights", lambda W: build(W, 3, {}, {"weight": False}), judge)
    ctx.queue("no weights or posterior", lambda W: build(W, 4, {}, {"weight": False, "posterior": False}), judge)
    ctx.queue("one parameter", lambda W: build(W, 3, {}, None, ("A",)), judge)
    ctx.queue("four parameters", lambda W: build(W, 3, {}, None, ("B", "A", "E", "D")), judge)

    def refuse(W, w, o):
        ch = W.chain("the chain", label="X", walkers=w, **o)
        W.mark()
        W.caught = None
        try:
            W.call(ch, "divide")
        except PyExc as e:
            W.caught = e

    def jrefuse(run, s):
        if decided(run, s):
            s.check(run.W.caught is not None, "refusals", "refuse", f"{run.name}: the chain is divided", "chainconsumer/chain")

    for o in ({}, {"kde": True}, {"plot_point": True}, {"shift_params": True}):
        for w, g in ((1, {}), (2, {"grid": True}), (1, {"grid": True}), (5, {"grid": True})):
            ctx.queue(f"{w} walkers {'grid' if g else ''} {','.join(o)}", lambda W, w=w, g=g, o=o: refuse(W, w, {**g, **o}), jrefuse)
    ctx.flush()


def same_value(I, a, b):
    if a is b:
        return True
    if isinstance(a, VList) and isinstance(b, VList):
        return len(a.items) == len(b.items) and all(same_value(I, x, y) for x, y in zip(a.items, b.items))
    try:
        return to_term(a) is to_term(b)
    except Exception:  # noqa: BLE001
        return False


RULES = {"C05": C05, "C15": C15, "C16": C16, "C17": C17, "C18": C18}
