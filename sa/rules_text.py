"""Texts of bounds and agreement of the displays of a summary (C32)."""
from __future__ import annotations

import math
import re
from fractions import Fraction as Fr

from common import *  # noqa: F403
from calc import arg1, short
from norm import Norm, const
from reps import Rep
from figs import Artist
from rules_misc import message
from rules_plot import crashed, panels, scene
from rules_range import WRAP, bare
from rules_stats import S
from terms import Term, mk, num, show, subterms
from values import SV, ExtObj, Inst, Native, PyExc, VList, to_term


# ---------------------------------------------------------------------------------------------- C32
class Cant(Exception):
    pass


def pieces(t):
    """flatten a text term into literal strings and value terms"""
    if isinstance(t, str):
        return [t]
    if t.op == "c" and isinstance(t.a[0], str):
        return [t.a[0]]
    if t.op == "cat":
        return [p for x in t.a[0] for p in pieces(x)]
    return [t]


def template(t):
    """text with the i-th value term replaced by a marker"""
    out, vals = [], []
    for p in pieces(t):
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(f"\x00{len(vals)}\x01")
            vals.append(p)
    return "".join(out), vals


TOKEN = re.compile(r"10\^\{?|\x00(\d+)\x01|\d+(?:\.\d+)?(?:e[+-]?\d+)?")


def roles(txt, vals):
    """[(role, term or literal)] of the numbers of one displayed bound"""
    out = []
    i = 0
    expo = False
    while True:
        m = TOKEN.search(txt, i)
        if m is None:
            return out
        if m.group(0).startswith("10^"):
            expo = True
            i = m.end()
            continue
        before = txt[:m.start()].rstrip(" {")
        neg = False
        v = vals[int(m.group(1))] if m.group(1) else None
        if v is None:
            # a literal with its own sign, unless the sign tells its place
            neg = before.endswith("-") and not before.endswith("_{-") and not re.search(r"[_^]\{?-$", before)
            v = -float(m.group(0)) if neg else float(m.group(0))
            if neg:
                before = before[:-1].rstrip(" {")
        if expo:
            role = "exponent"
            expo = False
        elif before.endswith("\\pm"):
            role = "both"
        elif re.search(r"\^\{?\+?$", before) or before.endswith("+"):
            role = "upper"
        elif re.search(r"_\{?-$", before):
            role = "lower"
        elif before.endswith("-"):
            role = "lower"
        elif not re.search(r"[\\^_]$", before):
            role = "centre"
        else:
            raise Cant(f"place of a number after {before[-12:]!r}")
        out.append((role, v))
        i = m.end()


class Role:
    """value of a displayed number without its rounding, as a rational term"""

    def __init__(self, rep):
        self.rep = rep
        self.N = Norm()

    def __call__(self, t):
        """(rational term, decimal places kept in units of the displayed number or None)"""
        if not isinstance(t, Term):
            return const(Fr(repr(t)))
        n = num(t)
        if n is not None:
            return const(Fr(repr(n)) if isinstance(n, float) else Fr(n))
        op = t.op
        if op == "opt":
            return self.N(t)
        if op == "fmt":
            return self(t.a[1])
        if op == "bin" and t.a[0] in ("+", "-", "*", "/"):
            a, b = self(t.a[1]), self(t.a[2])
            if t.a[0] == "+":
                return a.add(b)
            if t.a[0] == "-":
                return a.add(b.scale(Fr(-1)))
            if t.a[0] == "*":
                return a.mul(b)
            if not b.iszero():
                return a.mul(b.inv())
        if op == "bin" and t.a[0] == "**" or op == "call" and str(t.a[0]).endswith(("power", ".pow")):
            base, ex = (t.a[1], t.a[2]) if op == "bin" else (t.a[1][0][1], t.a[1][1][1])
            e = self.rep(ex)
            b = num(base) if isinstance(base, Term) else base
            if e is not None and b is not None and abs(e) < 400 and e == int(e):
                return const((Fr(repr(b)) if isinstance(b, float) else Fr(b)) ** int(e))
        if op == "un" and t.a[0] in ("-", "+"):
            return self(t.a[1]).scale(Fr(-1 if t.a[0] == "-" else 1))
        if op == "pick":
            v = [self.rep(x) for x in t.a[1]]
            if None not in v:
                return self(t.a[1][v.index((min if t.a[0] == "min" else max)(v))])
        if op == "call":
            n = str(t.a[0]).split(".")[-1]
            a = t.a[1][0][1] if t.a[1] else None
            if n in ("round", "around", "float", "float64", "int", "rint", "asarray", "str"):
                return self(a)
            if n in ("abs", "fabs", "absolute"):
                v = self.rep(a)
                if v is not None:
                    return self(a).scale(Fr(1 if v >= 0 else -1))
            if n in ("minimum", "maximum", "min", "max"):
                xs = [x for _, x in t.a[1] if isinstance(x, Term)]
                v = [self.rep(x) for x in xs]
                if len(v) > 1 and None not in v:
                    return self(xs[v.index((min if "min" in n else max)(v))])
        raise Cant(f"value {show(t, 3)[:100]}")


def lastplace(s):
    """place value of the last non-zero digit displayed"""
    s = str(s).strip().lstrip("+-")
    d = s.split(".")[1].rstrip("0") if "." in s else ""
    if d:
        return 10.0 ** -len(d)
    i = s.split(".")[0]
    return 10.0 ** (len(i) - len(i.rstrip("0")))


def C32(ctx):
    """The space of finite bounds is partitioned by the sign of the centre and of each error, by the decade of the smaller error and by the ratio of the two errors. For each cell the
    formatting code is interpreted on a bound whose limits are symbols; a representative point of the cell selects the path. The resulting text is a template whose placeholders hold
    def-use terms of the limits; their place in the template (before the sign, after '+', after '-', after '±', exponent of ten) gives the role, and the term, stripped of rounding, must be
    equal as a polynomial to that role's quantity (centre, upper−centre, centre−lower) at the power of ten the text states. No cell may end in an exception."""
    full = ctx.tier == "thorough"
    decades = range(-9, 10) if full else (-7, -5, -3, -2, -1, 0, 1, 2, 3, 4, 6)
    mant = (3.4, 1.7, 9.6, 5.0) if full else (3.4,)
    cells = []
    for k in decades:
        for m in mant:
            e = m * 10.0 ** k
            for lo, up in ((e, e), (e, 1.04 * e), (1.02 * e, e), (e, 1.7 * e), (1.13 * e, e), (2.9 * e, e), (e, 31 * e), (310 * e, e), (0.0, e), (e, 0.0)):
                for c in (0.0, 1.3 * e, -46 * e, 0.003 * e, 23456.7 * e):
                    cells.append((lo, up, c))
    for k in decades:
        for m in mant:
            cells += [(0.0, 0.0, m * 10.0 ** k), (0.0, 0.0, -m * 10.0 ** k)]
    cells.append((0.0, 0.0, 0.0))

    def wbound(W, own):
        return W.I.instantiate(W.cls("analysis.Bound"), [], {k: SV(mk("opt", own, k), "scalar", nd=0) for k in ("lower", "center", "upper")})

    def scen(W, part, multi):
        ana = W.I.instantiate(W.cls("analysis.Analysis"), [None], {})
        pts = {}

        def leaf(t):
            return pts.get(t.a) if t.op == "opt" else None

        W.rep = Rep(leaf)
        W.I.oracle = W.rep.atom
        W.pts = pts
        W.out = []
        for j, cell in enumerate(part):
            cs = cell if multi else (cell,)
            bs = []
            for q, (lo, up, c) in enumerate(cs):
                own = f"b{j}.{q}"
                pts[(own, "lower")], pts[(own, "center")], pts[(own, "upper")] = c - lo, c, c + up
                # the errors as the code can see them
                if lo and c - (c - lo) == 0 or up and (c + up) - c == 0:
                    raise AssertionError
                bs.append(wbound(W, own))
            try:
                r = W.call(ana, "get_parameter_text", VList(bs) if multi else bs[0])
            except PyExc as e:
                r = e
            W.out.append((cs, [f"b{j}.{q}" for q in range(len(cs))], r))

    def name(c):
        lo, up, ce = c
        return f"centre {ce:.3g}, lower error {lo:.3g}, upper error {up:.3g}"

    def judge1(run, s, W, cell, own, txt, vals, key):
        lo, up, c = cell
        pts = W.pts
        rep, R = W.rep, Role(W.rep)
        opt = lambda k: R.N(mk("opt", own, k))  # noqa: E731
        want = {"centre": opt("center"), "upper": opt("upper").add(opt("center").scale(Fr(-1))), "lower": opt("center").add(opt("lower").scale(Fr(-1)))}
        val = {"centre": c, "upper": pts[(own, "upper")] - c, "lower": c - pts[(own, "lower")]}
        rs = roles(txt, vals)
        E = 0
        for r, v in rs:
            if r == "exponent":
                E = rep(v) if isinstance(v, Term) else v
                if isinstance(E, str):
                    E = float(E)
                if E is None:
                    x = next((y for y in subterms(v) if isinstance(y, Term) and y.op != "fmt" and rep(y) is not None), None) if isinstance(v, Term) else None
                    if x is not None and isinstance(rep(x), float) and not math.isfinite(rep(x)):
                        E = rep(x)
                if E is None:
                    raise Cant("exponent")
                if not math.isfinite(E):
                    s.bad("exponent", f"the power of ten of a finite bound ({name(cell)}) is {E}: formatting it raises OverflowError")
                    return
                E = int(E)
                # the text may put the sign of a literal exponent apart
        names = [r for r, _ in rs if r != "exponent"]
        s.ob("places of a displayed bound", len(names))
        if sorted(names) not in (["both", "centre"], ["centre", "lower", "upper"]):
            raise Cant(f"places {names} in {txt!r}")
        small = [abs(x) for x in (val["upper"], val["lower"]) if x != 0] or ([abs(c)] if c else [])
        q = 10.0 ** math.floor(math.log10(min(small))) if small else 1.0
        for r, v in rs:
            if r == "exponent":
                continue
            for role in (("upper", "lower") if r == "both" else (r,)):
                shown = rep(v) if isinstance(v, Term) else v
                if isinstance(shown, str):
                    shown = float(shown)
                if shown is None:
                    raise Cant("displayed number")
                if isinstance(v, Term) and not (shown == 0 and val[role] == 0):
                    got = R(v)
                    exp = want[role].scale(Fr(10) ** -E)
                    if not got.same(exp):
                        if r == "both" and (got.same(want["upper"].scale(Fr(10) ** -E)) or got.same(want["lower"].scale(Fr(10) ** -E))):
                            if abs(shown * 10.0 ** E - val[role]) > lastplace(rep(v)) * 0.56 * 10.0 ** E:
                                s.bad("pm", f"{name(cell)}: written as one ± although the errors differ at the precision shown", None, text=txt)
                                return
                            continue
                        s.bad(f"role {role}", f"the {role} {'value' if role == 'centre' else 'error'} of a bound ({name(cell)}) is displayed as {show(v, 7)[:160]} (times 10^{E})", None, text=txt)
                        return
                if abs(shown * 10.0 ** E - val[role]) > 0.5 * q * 1.0001:
                    s.bad(f"precision {role}", f"the {role} of a bound ({name(cell)}) is displayed to a coarser place than the leading digit of its smaller error (shown {shown:g}e{E})", None, text=txt)
                    return

    def judge(run, s):
        W = run.W
        for cs, owns, r in W.out:
            if isinstance(r, PyExc):
                if r.implicit or r.cname != "Unsupported":
                    s.bad(f"raises {r.cname}", f"formatting a finite bound ({name(cs[0])}) ends in {r.cname}: {message(r)[:100]}", r.where)
                continue
            s.ob("cell of bounds formatted")
            try:
                txt, vals = template(to_term(r))
                if len(cs) == 1:
                    judge1(run, s, W, cs[0], owns[0], txt, vals, "")
                    continue
                lines = [ln for ln in re.split(r"\n|\\\\", txt) if TOKEN.search(ln)]
                if len(lines) != len(cs):
                    raise Cant(f"{len(lines)} lines for {len(cs)} bounds")
                for i, (ln, c, o) in enumerate(zip(lines, cs, owns)):
                    m = re.match(r"^(.*?:)", ln)
                    if m:
                        d = re.findall(r"\d+", m.group(1))
                        s.ob("interval label")
                        if d and d[-1] != str(i + 1):
                            s.bad("interval label", f"line {i + 1} of the text of {len(cs)} bounds is labelled {m.group(1)!r}")
                        ln = ln[m.end():]
                    judge1(run, s, W, c, o, ln, vals, f" {i}")
            except Cant as e:
                s.undecided(f"{name(cs[0])}: {e}")

    n = 8
    for i in range(n):
        ctx.queue(f"single bounds {i}", lambda W, i=i: scen(W, cells[i::n], False), judge)
    trip = [(cells[i], cells[(i * 7 + 3) % len(cells)]) for i in range(0, len(cells), 1 if full else 4)]
    trip += [(cells[i], cells[(i * 5 + 1) % len(cells)], cells[(i * 11 + 2) % len(cells)]) for i in range(0, len(cells), 3 if full else 9)]
    for i in range(n):
        ctx.queue(f"several bounds {i}", lambda W, i=i: scen(W, trip[i::n], True), judge)
    ctx.flush()


# ---------------------------------------------------------------------------------------------- C33
STATS = {"max": "MAX", "mean": "MEAN", "cumulative": "CUMULATIVE", "max_central": "MAX_CENTRAL", "hdi": "HDI"}
CLIPS = {"max", "min", "maximum", "minimum", "clip", "fmax", "fmin"}
SAME = {"float", "asarray", "array", "abs"}


def limits(t):
    """(inner values, clipping values): what a drawn limit is, with clipping at the drawn range removed"""
    t = bare(t)
    if t.op == "pick" and t.a[0] in ("min", "max"):
        return [x for p in t.a[1] for x in limits(p)]
    if t.op == "call" and short(t) in CLIPS:
        out = []
        for _, x in t.a[1]:
            if isinstance(x, Term):
                if x.op == "list":
                    out += [q for p in x.a[0] if isinstance(p, Term) for q in limits(p)]
                else:
                    out += limits(x)
        return out
    return [t]


def C33(ctx):
    """Each statistic's calculation is replaced by one symbol per chain, parameter, statistic and limit; everything downstream (dispatch on the chain's statistic, merging of overrides, shading, titles,
    error bars, tables) is interpreted. What `get_summary` reports for the chain in the same abstract world is the reference: the limits along the parameter's axis of each shaded band, the
    centre and extents of each error bar, and the values in each title and table cell must be the reference's terms of the chain the artist belongs to, up to clipping at the drawn range."""
    full = ctx.tier == "thorough"

    def stub(W, nint):
        A = W.cls("analysis.Analysis")

        def sym(ch, col, stat, k):
            return SV(mk("opt", f"bound {stat}:{getattr(ch, 'label', None) or W.attr(ch, 'name')}:{col}", k), "scalar", nd=0)

        def args(a, kw):
            a = [x for x in a if not (isinstance(x, Inst) and x.cls.name == "Analysis")]
            ch = a[0] if a else kw.get("chain")
            col = a[1] if len(a) > 1 else kw.get("column", kw.get("parameter"))
            return ch, col

        for st in STATS:
            n = f"get_parameter_summary_{st}"
            if n in A.ns:
                def f(a, kw, st=st):
                    ch, col = args(a, kw)
                    return W.I.instantiate(W.cls("analysis.Bound"), [], {k: sym(ch, col, st, k) for k in ("lower", "center", "upper")})
                A.ns[n] = Native(n, f)
        n = "get_parameter_hdi_intervals"
        if n in A.ns:
            def g(a, kw):
                ch, col = args(a, kw)
                return VList([(sym(ch, col, f"interval{i}", "lower"), sym(ch, col, f"interval{i}", "upper")) for i in range(nint)])
            A.ns[n] = Native(n, g)

    def reference(W):
        """{(chain name, parameter): [(lower, centre, upper)]}"""
        R = W.call(W.attr(W.cc, "analysis"), "get_summary")
        out = {}
        for nm, d in R.items():
            for p, b in d.items():
                bs = b.items if isinstance(b, VList) else [] if b is None else [b]
                out[nm, p] = [tuple(to_term(W.attr(x, k)) for k in ("lower", "center", "upper")) for x in bs]
        return out

    def get(run, s):
        W = run.W
        if not hasattr(W, "_ref"):
            W._ref = reference(W)
            names = {W.attr(ch, "name"): (ch.label, st) for ch, (st, m) in zip(W.own_stats[0], W.own_stats[1]) if not m}
            for (nm, p), bs in W._ref.items():
                if nm not in names:
                    continue
                lab, st = names[nm]
                for a in sorted({x.a for b in bs for z in b for x in textvals(z)}):
                    s.ob("summaries compared with the chain's own statistic")
                    if a[0] != f"bound {st}:{lab}:{p}":
                        s.bad("statistic", f"{run.name}: get_summary reports {a} for parameter {p} of chain {lab}, whose statistic is {st}")
                        break
        return W._ref

    def bounds_in(W, t):
        """bound symbols a term is made of: {(owner, limit)}"""
        return {x.a for x in subterms(t) if x.op == "opt" and str(x.a[0]).startswith("bound ")}

    def band(run, s, N, what, site, x, ref, how):
        """x: positions along the parameter's axis of one band; returns the index of the reference interval it shows"""
        lo, up = how
        for i, (rl, _, ru) in enumerate(ref):
            rl, ru = limits(rl), limits(ru)
            rl, ru = [z for z in rl if bounds_in(run.W, z)] or rl, [z for z in ru if bounds_in(run.W, z)] or ru
            if any(N(z).same(N(q)) for z in lo for q in rl) and any(N(z).same(N(q)) for z in up for q in ru):
                extra = [z for z in lo if bounds_in(run.W, z) and not any(N(z).same(N(q)) for q in rl)] + [z for z in up if bounds_in(run.W, z) and not any(N(z).same(N(q)) for q in ru)]
                if extra:
                    s.bad("interval", f"{what} is not the summarised interval: {show(extra[0], 3)[:90]}", site)
                return i
        if all(z.op != "unk" for z in subterms(x)):
            s.bad("interval", f"{what} runs over {show(x, 4)[:120]}, not over the summarised interval", site)
        else:
            s.undecided(what)
        return None

    def ends(x):
        """(low end, high end) candidates of the positions of a band"""
        x = bare(x)
        if x.op == "call" and short(x) in ("linspace", "geomspace", "arange"):
            A = dict(x.a[1])
            v = [A.get("start", A.get("a")), A.get("stop", A.get("b"))]
            if all(isinstance(z, Term) for z in v):
                return limits(v[0]), limits(v[1])
        if x.op == "list" and len(x.a[0]) >= 2:
            return limits(x.a[0][0]), limits(x.a[0][-1])
        return None

    def missing(run, need, have):
        """limits that are not stated; equal errors are stated once and zero errors not at all, so only the ordinary path is asked"""
        return [] if run.flips else [a for a in sorted(set(need) - set(have)) if not (a[1] in ("lower", "upper") and (a[0], "upper" if a[1] == "lower" else "lower") in have)]

    def textvals(t):
        return [z for z in subterms(t) if z.op == "opt" and str(z.a[0]).startswith("bound ")]

    def judge_bands(run, s, W, N, evs, expect, ref_of, axis_of, what):
        """bands drawn on one panel: evs the fill artists, expect: list of (label) that must have a band"""
        seen = {}
        for a in evs:
            x = a.get("x") if a.name == "fill_between" else a.get("y")
            if x is None:
                continue
            s.ob("shaded intervals compared with the summary")
            lab = None
            col = a.args.get("color")
            for z in subterms(col) if isinstance(col, Term) else ():
                if z.op == "opt" and z.a[1] == "color":
                    lab = z.a[0]
            if lab is None:
                s.undecided(f"{what}: owner of a band")
                s.silent = True
                continue
            h = ends(x)
            if h is None:
                s.undecided(f"{what}: ends of a band")
                s.silent = True
                continue
            i = band(run, s, N, f"{what}: the shaded band of chain {lab}", a.site, x, ref_of(lab), h)
            if i is not None:
                seen.setdefault(lab, []).append(i)
        for lab in expect:
            want = list(range(len(ref_of(lab))))
            g = seen.get(lab, [])
            if sorted(g) == want:
                s.ob("every summarised interval is shaded")
            elif not s.silent:
                s.bad("intervals shown", f"{what}: chain {lab} has {len(want)} summarised interval(s), {len(g)} are shaded")

    def judge(run, s):
        W = run.W
        if crashed(run, s):
            return
        ref = get(run, s)
        N = Norm()
        for k, p, w in panels(W):
            if w.kind not in ("hist", "summary"):
                continue
            col = w.x if w.x != "density" else w.y
            labs = w.chains or W.shown

            def ref_of(lab):
                return ref.get((W.names[lab], col), [])
            fills = [a for a in p.artists if a.name in ("fill_between", "fill_betweenx")]
            bars = [a for a in p.artists if a.name == "errorbar"]
            s.silent = any(any(z.op == "unk" for z in subterms(t)) for a in fills for t in a.args.values() if isinstance(t, Term))
            what = f"{run.name}: panel {k} ({col})"
            if W.errorbar:
                for lab in labs:
                    if col not in W.cols_of[lab]:
                        continue
                    errorbars(s, W, N, bars, ref_of(lab)[:1] if len(ref_of(lab)) == 1 else [tuple(mk("opt", f"bound hdi:{lab}:{col}", z) for z in ("lower", "center", "upper"))], f"{what}: chain {lab}")
            else:
                exp = [lab for lab in labs if col in W.cols_of[lab]]
                judge_bands(run, s, W, N, fills, exp, ref_of, None, what)
            for name, t, e in p.texts:
                if name != "set_title":
                    continue
                b = textvals(t)
                if not b:
                    continue
                s.ob("titles compared with the summary")
                want = ref_of(labs[0])
                need = {x.a for q in want for z in q for x in textvals(z)}
                have = {x.a for x in b}
                if have - need:
                    s.bad("title", f"{what}: the title states {sorted(have - need)[0]}, which is not what the summary of chain {labs[0]} reports", e.site)
                elif missing(run, need, have):
                    s.bad("title", f"{what}: the title leaves out {missing(run, need, have)[0]} of the summary of chain {labs[0]}", e.site)
            if W.titled and k in W.titled and not any(n == "set_title" and textvals(t) for n, t, _ in p.texts):
                s.bad("title", f"{what}: no title states the summary of the only chain")

    def errorbars(s, W, N, bars, want, what):
        s.ob("error bars compared with the summary")
        if len(bars) != 1:
            s.bad("error bar", f"{what}: {len(bars)} error bars for one summary")
            return
        a = bars[0]
        lo, ce, up = want[0]
        x, e = a.get("x"), a.get("xerr")
        xs = elems(x)
        if xs is None or len(xs) != 1:
            s.undecided(f"{what}: centre of the error bar")
        elif not N(xs[0]).same(N(ce)):
            s.bad("error bar", f"{what}: the error bar is centred at {show(xs[0], 3)[:80]}, not at the summarised centre", a.site)
        es = elems(e)
        if es is None and isinstance(e, Term) and textvals(e):
            es = [e, e]
        if es is None or len(es) != 2:
            s.undecided(f"{what}: extents of the error bar")
            return
        for side, t, d in (("lower", es[0], mk("bin", "-", ce, lo)), ("upper", es[1], mk("bin", "-", up, ce))):
            q = elems(t)
            t = one(q[0] if q is not None and len(q) == 1 else t)
            while t.op == "call" and short(t) in ("abs", "absolute", "fabs", "float", "asarray"):
                t = one(arg1(t))
            if N(t).same(N(d)) or N(t).same(N(mk("un", "-", d))):
                continue
            if all(z.op not in ("unk", "item", "slice", "list") for z in subterms(t)):
                s.bad("error bar", f"{what}: the {side} extent of the error bar is {show(t, 3)[:90]}, not the distance between the centre and the {side} limit", a.site)
            else:
                s.undecided(f"{what}: extent of the error bar")

    def elems(t):
        """elements of a short vector term"""
        if not isinstance(t, Term):
            return None
        if t.op in ("list", "tuple"):
            return [x if isinstance(x, Term) else to_term(x) for x in t.a[0]]
        if t.op == "call" and t.a[1]:
            n, x = short(t), elems(arg1(t))
            if x is None:
                return None
            if n in WRAP:
                return x
            if n in ("abs", "absolute", "fabs"):
                return [mk("call", t.a[0], (("a", y),)) for y in x]
            if n == "diff" and len(t.a[1]) == 1:
                return [mk("bin", "-", q, p) for p, q in zip(x, x[1:])]
        if t.op == "bin" and isinstance(t.a[1], Term) and isinstance(t.a[2], Term):
            x, y = elems(t.a[1]), elems(t.a[2])
            if x is None and y is None or x is not None and y is not None and len(x) != len(y):
                return None
            n = len(x if x is not None else y)
            x, y = x or [one(t.a[1])] * n, y or [one(t.a[2])] * n
            return [mk("bin", t.a[0], p, q) for p, q in zip(x, y)]
        if t.op == "item" and isinstance(t.a[1], Term) and isinstance(t.a[0], Term):
            x, i = elems(t.a[0]), num(t.a[1])
            k = elems(t.a[1])
            if x is not None and k is not None and all(num(z) is not None and -len(x) <= num(z) < len(x) for z in k):
                return [x[int(num(z))] for z in k]
            if x is not None and i is not None and -len(x) <= i < len(x):
                return elems(x[int(i)])
        return None

    def one(t):
        """a scalar picked out of a short vector"""
        if t.op == "item" and isinstance(t.a[1], Term) and isinstance(t.a[0], Term):
            x, i = elems(t.a[0]), num(t.a[1])
            if x is not None and i is not None and -len(x) <= i < len(x):
                return x[int(i)]
        if t.op == "call" and short(t) in ("mean", "average") and len(t.a[1]) == 1:
            x = elems(arg1(t))
            if x:
                r = x[0]
                for z in x[1:]:
                    r = mk("bin", "+", r, z)
                return mk("bin", "/", r, mk("c", len(x)))
        return t

    def go(W, method, cols, stats, nint=2, errorbar=False, titled=(), ostat=None, **kw):
        W.ostat = ostat
        if ostat:
            kw["override"] = {"statistics": stat(W, ostat)}
        stub(W, nint)
        W.errorbar, W.titled = errorbar, titled
        opts = [{"statistics": stat(W, x), "multimodal": m, "bar_shade": True} for x, m in stats]
        k = {"errorbar": True} if errorbar else {}
        scene(W, method, cols=cols, opts=opts, kw=k, **kw)
        W.own_stats = (W.all, [(W.ostat, False)] * len(stats) if W.ostat else stats)

    def build(W, stats, **o):
        stub(W, W.nint)
        W.ch = [W.chain(f"chain {'zyx'[i]}", label=f"X{i + 1}", statistics=stat(W, x), multimodal=m, **o) for i, (x, m) in enumerate(stats)]
        W.cc = W.consumer(*W.ch)
        W.own_stats = (W.ch, stats)

    def free(W, x, summ, shade):
        W.nint = 2
        build(W, ((x, False),), shade=shade, shade_alpha=W.opt("X1", "shade_alpha", 0.5), color=W.opt("X1", "color", "#111111"))
        W.ax = ExtObj("axes", "panel")
        W.summ, W.shade = summ, shade
        W.mark()
        W.I.call(W.I.load("chainconsumer.plotting.contours").ns["plot_dist"], [W.ax, W.ch[0], "A"], {"config": W.config(), "summary": summ})

    def jfree(run, s):
        W = run.W
        if crashed(run, s):
            return
        N = Norm()
        evs = [e for e in W.events("ext") if e.obj is W.ax]
        ref = get(run, s)[W.attr(W.ch[0], "name"), "A"]
        s.silent = False
        fills = [Artist(e) for e in evs if e.name in ("fill_between", "fill_betweenx")]
        if not W.shade and not fills:
            s.ob("no shading asked, none drawn")
        else:
            judge_bands(run, s, W, N, fills, ["X1"] if W.shade else [], lambda lab: ref, None, run.name)
        shown = [(e, t) for e in evs if e.name in ("set_title", "text", "annotate") for t in list(e.d.get("targs") or []) + list((e.d.get("tkw") or {}).values()) if isinstance(t, Term) and textvals(t)]
        s.ob("titles compared with the summary")
        if not W.summ and shown:
            s.bad("title", f"{run.name}: a summary is stated though none is asked for", shown[0][0].site)
        elif W.summ and not shown:
            s.bad("title", f"{run.name}: the summary that is asked for is not stated")
        elif W.summ:
            need = {x.a for q in ref for z in q for x in textvals(z)}
            have = {x.a for x in textvals(shown[0][1])}
            if have - need or missing(run, need, have):
                s.bad("title", f"{run.name}: the text states {sorted(have)}, the summary {sorted(need)}", shown[0][0].site)

    def tab(W, stats, n, kw):
        W.nint = n
        build(W, stats)
        W.mark()
        W.ret = W.call(W.attr(W.cc, "analysis"), "get_latex_table", **kw)

    def jtab(run, s):
        W = run.W
        if crashed(run, s):
            return
        ref = get(run, s)
        have = {x.a for x in textvals(to_term(W.ret))}
        need = {}
        for k, bs in ref.items():
            for q in bs:
                for z in q:
                    for x in textvals(z):
                        need[x.a] = k
        s.ob("limits of the table compared with the summary", len(need))
        for a in sorted(have - set(need)):
            s.bad("table", f"{run.name}: the table states {a}, which get_summary does not report")
            return
        for a in missing(run, need, have):
            s.bad("table", f"{run.name}: the table leaves out {a} of the summary of {need[a]}")
            return

    def stat(W, x):
        return S(W, STATS[x])

    ONE, TWO = (("A", "B"),), (("A", "B"), ("B", "A"))
    for x in STATS:
        y = list(STATS)[(list(STATS).index(x) + 2) % len(STATS)]
        ctx.queue(f"plot of a {x} chain", lambda W, x=x: go(W, "plot", ONE, ((x, False),), titled=((0, 0), (1, 1))), judge)
        ctx.queue(f"plot of {x} and {y}", lambda W, x=x, y=y: go(W, "plot", TWO, ((x, False), (y, False))), judge)
        ctx.queue(f"flipped plot of a {x} chain", lambda W, x=x: go(W, "plot", ONE, ((x, False),), cfg={"flip": True}), judge)
        ctx.queue(f"plot_distributions of {x}", lambda W, x=x: go(W, "plot_distributions", ONE, ((x, False),)), judge)
        ctx.queue(f"plot_distributions of {x} and {y}", lambda W, x=x, y=y: go(W, "plot_distributions", TWO, ((x, False), (y, False))), judge)
        ctx.queue(f"plot_summary of {x} and {y}", lambda W, x=x, y=y: go(W, "plot_summary", TWO, ((x, False), (y, False))), judge)
        ctx.queue(f"plot_summary with error bars of {x} and {y}", lambda W, x=x, y=y: go(W, "plot_summary", TWO, ((x, False), (y, False)), errorbar=True), judge)
        for summ in (True, False):
            for shade in (True, False):
                ctx.queue(f"plot_dist of {x}{' with text' if summ else ''}{' shaded' if shade else ''}", lambda W, x=x, summ=summ, shade=shade: free(W, x, summ, shade), jfree)
        for kw in ({}, {"transpose": True}):
            ctx.queue(f"get_latex_table of {x} and {y}{' transposed' if kw else ''}", lambda W, x=x, y=y, kw=kw: tab(W, ((x, False), (y, False)), 2, kw), jtab)
    for n in (0, 1, 2, 3):
        ctx.queue(f"get_latex_table with {n} intervals", lambda W, n=n: tab(W, (("mean", False), ("hdi", True)), n, {}), jtab)
        for m in ("plot", "plot_distributions", "plot_summary"):
            ctx.queue(f"{m} with {n} intervals", lambda W, m=m, n=n: go(W, m, ONE, (("hdi", True),), nint=n), judge)
            ctx.queue(f"{m} with {n} intervals and another chain", lambda W, m=m, n=n: go(W, m, TWO, (("mean", False), ("hdi", True)), nint=n), judge)
        ctx.queue(f"plot_summary with error bars, {n} intervals", lambda W, n=n: go(W, "plot_summary", ONE, (("hdi", True),), nint=n, errorbar=True), judge)
    for m in ("plot", "plot_distributions", "plot_summary"):
        ctx.queue(f"{m} with an override", lambda W, m=m: go(W, m, TWO, (("mean", False), ("max", False)), ostat="cumulative"), judge)
        ctx.queue(f"{m} of some chains", lambda W, m=m: go(W, m, (("A", "B"), ("B", "D"), ("A", "D")), (("mean", False), ("hdi", True), ("max", False)), select=(2, 1)), judge)
    ctx.flush()
    ctx.explore("plot, every path", lambda W: go(W, "plot", ONE, (("max", False),)), judge)
    ctx.explore("plot with intervals, every path", lambda W: go(W, "plot", ONE, (("hdi", True),)), judge)
    ctx.explore("plot_summary with error bars, every path", lambda W: go(W, "plot_summary", TWO, (("max", False), ("cumulative", False)), errorbar=True), judge)
    ctx.explore("plot_dist, every path", lambda W: free(W, "max", True, True), jfree)
    ctx.explore("get_latex_table, every path", lambda W: tab(W, (("mean", False), ("hdi", True)), 2, {}), jtab)


RULES = {"C32": C32, "C33": C33}
