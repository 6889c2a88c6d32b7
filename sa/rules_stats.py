from __future__ import annotations

from fractions import Fraction as Fr

from calc import BAD, D0, D1, MIX, TOP, ZERO, Deg, Domain, Rows, Scale, Shift, short, subs
from common import *  # noqa: F403
from common import S, std, stack_txt
from terms import Term, callarg, leaves, mk, num, show, src_site, subterms
from values import *  # noqa: F403

STATS = ("MAX", "HDI", "MEAN", "CUMULATIVE", "MAX_CENTRAL")
VARIANTS = [
    ("default", {}, {}), ("unsmoothed", {"smooth": 0}, {}), ("kde", {"kde": True}, {}), ("kde 1.2", {"kde": 1.2}, {}), ("grid", {"grid": True}, {}),
    ("grid kde", {"grid": True, "kde": 1.5}, {}), ("power", {"power": 2.0}, {}), ("bins", {"bins": 25, "smooth": 2}, {}), ("kde power", {"kde": 1.2, "power": 2.0, "smooth": 0}, {}),
]


def flat(v, path=""):
    """(path, term) of every numeric leaf of a value"""
    if isinstance(v, SV):
        yield path, v.term
    elif isinstance(v, (VList, tuple)):
        for i, x in enumerate(v.items if isinstance(v, VList) else v):
            yield from flat(x, f"{path}[{i}]")
    elif isinstance(v, VDict):
        for k, x in v.items():
            yield from flat(x, f"{path}.{k}" if path else str(k))
    elif isinstance(v, Inst):
        for k, x in v.f.items():
            if k not in ("parent", "samples"):
                yield from flat(x, f"{path}.{k}")
    elif isinstance(v, VFrame):
        for k, x in v.cols.items():
            yield from flat(x, f"{path}[{k}]")


def where(t):
    s = src_site(t)
    return s if s is not None else "chainconsumer"


def summary_outputs(W, opts, stat, post=True, extra=True, **tk):
    """all bounds and intervals of one chain"""
    o = dict(opts)
    o["statistics"] = S(W, stat)
    ch = W.chain("X", label="X", posterior=post, **o, **tk)
    cc = W.consumer(ch)
    W.mark()
    an = W.attr(cc, "analysis")
    W.chain1 = ch
    out = []
    for p in ("A",):
        b = W.call(an, "get_parameter_summary", ch, p)
        out += [(f"{stat} bound{q}", t) for q, t in flat(b)]
        if stat == "HDI" and extra:
            iv = W.call(an, "get_parameter_hdi_intervals", ch, p)
            out += [(f"interval{q}", t) for q, t in flat(iv)]
            out += [(f"multimodal bound{q}", t) for q, t in flat(W.call(an, "get_parameter_multimodal_bounds", ch, p, iv))]
    W.outputs = out
    return ch


def matrix_outputs(W, opts):
    ch = W.chain("X", label="X", **opts)
    cc = W.consumer(ch)
    W.mark()
    W.outputs = [("covariance", t) for _, t in flat(W.attr(W.call(ch, "get_covariance"), "matrix"))]
    W.correlations = [("correlation", t) for _, t in flat(W.attr(W.call(ch, "get_correlation"), "matrix"))]
    W.outputs += W.correlations


PLOTS = ("plot", "plot_distributions", "plot_summary", "plot_walks")


def drawn(W, evs):
    """(event, argument name, term) of every abstract value handed to a drawing call"""
    for e in evs:
        if e.kind != "ext":
            continue
        for i, t in enumerate(e.d.get("targs") or ()):
            if isinstance(t, Term) and t.op != "c":
                yield e, str(i), t
        for k, t in (e.d.get("tkw") or {}).items():
            if isinstance(t, Term) and t.op != "c":
                yield e, k, t


# ---------------------------------------------------------------------------------------------- generic judge over a domain
def report(s, dom, prefix, run, only=None):
    for (msg, tid), (t, m) in dom.complaints.items():
        if only is not None and not only(t):
            continue
        st = where(t)
        fn = st[1] if isinstance(st, tuple) else st
        s.bad(f"{prefix}:{fn}:{m}:{short_of(t)}", f"{run.name}: {m}: {show(t, 3)[:160]}", st)


def short_of(t):
    return short(t) if t.op == "call" else (t.op + (str(t.a[0]) if t.op in ("bin", "cmp") else ""))


def C11(ctx):
    """Homogeneity analysis: with every weight column given degree 1 and everything else degree 0, the degree of each summary bound, matrix entry, information
    criterion and drawn value is inferred through the def-use terms; a value with degree other than 0, or any addition or comparison of a weight-carrying
    quantity with a non-zero constant (also in branch conditions), is a violation."""

    def leaf(t):
        return D1 if t.a[1] in ("weight", "w8") else D0

    def judge(run, s):
        W = run.W
        dom = Scale(leaf).roots(W.events())
        for tag, t in getattr(W, "outputs", []):
            v = dom(t)
            s.ob("results whose dependence on the weight scale was inferred")
            if isinstance(v, Deg) and not v.zero:
                s.bad(f"result:{tag.split('[')[0]}", f"{run.name}: {tag} scales with the weights (degree {v}): {show(t, 3)[:200]}", where(t))
            if v in (TOP, MIX):
                s.undecided(f"{run.name}: {tag}: {v}")
        if getattr(W, "drawing", False):
            for e, k, t in drawn(W, W.events()):
                if not any(x.op == "col" and leaf(x) == D1 for x in leaves(t)):
                    continue
                v = dom(t)
                s.ob("drawn values whose dependence on the weight scale was inferred")
                if isinstance(v, Deg) and not v.zero and not free_scale(e, k):
                    s.bad(f"drawn:{e.site[1]}:{e.name}:{k}", f"{run.name}: argument {k} of {e.name} scales with the weights: {show(t, 3)[:160]}", e.site, stack=stack_txt(e))
        conds(run, s, dom)
        report(s, dom, "weights", run, only=lambda t: True)

    def free_scale(e, k):
        return "plot_walks" in " ".join(e.stack) or "walk" in e.site[1]

    def conds(run, s, dom):
        for t in list(run.I.atoms):
            if any(x.op == "col" and leaf(x) == D1 for x in leaves(t)):
                dom(t)
                s.ob("branch conditions checked")

    tests = []
    for vn, o, tk in VARIANTS:
        for st in STATS:
            tests.append((f"{vn}/{st}", lambda W, o=o, st=st, tk=tk: summary_outputs(W, o, st, **tk)))
    for n, sc in tests:
        if ctx.tier == "thorough" or n.split("/")[0] in ("default", "kde 1.2", "grid"):
            ctx.explore(n, sc, judge, limit=60 if ctx.tier == "quick" else 400)
        else:
            ctx.queue(n, sc, judge)
    ctx.flush()
    ctx.explore("matrices", lambda W: matrix_outputs(W, {}), judge)
    ctx.explore("criteria", lambda W: criteria_outputs(W), judge, limit=60)
    for vn, o, tk in VARIANTS:
        for m in PLOTS:
            def draw(W, o=o, m=m):
                cc, ch = std(W, opts1=o, opts2={"plot_cloud": True, "plot_point": True})
                W.mark()
                W.drawing = True
                W.call(W.attr(cc, "plotter"), m)

            if ctx.tier == "thorough" or vn in ("default", "kde 1.2"):
                ctx.explore(f"{m}/{vn}", draw, judge, limit=60 if ctx.tier == "quick" else 400)
            else:
                ctx.queue(f"{m}/{vn}", draw, judge)
    ctx.flush()
    ctx.explore("shifted chain", lambda W: (W.mark(), shifted_outputs(W)), judge)


def shifted_outputs(W):
    ch = W.chain("X", label="X", shift_params=True)
    f = W.attr(ch, "samples")
    W.outputs = [(f"shifted {k}", v.term) for k, v in f.cols.items() if k in ("A", "B") and isinstance(v, SV)]


def criteria_outputs(W, **kw):
    cc, ch = std(W, **kw)
    W.mark()
    W.outputs = []
    W.crit = {}
    for m in ("aic", "bic", "dic"):
        r = W.call(W.attr(cc, "comparison"), m)
        W.crit[m] = r
        W.outputs += [(f"{m}.{k}", t) for k, t in flat(r)]
    return cc


def C12(ctx):
    """Units analysis: parameter A of every chain is given degree 1 (rescaling) and translation coefficient 1 (shifting), everything else 0; both are inferred for
    every bound, interval, extent, diagnostic decision and criterion. Bounds and extents of A must have degree 1 and coefficient 1, criteria 0 and 0; adding or comparing a
    quantity in units with a non-zero absolute number, absolute root-finding tolerances, and unit-dependent grid sizes or roundings are violations."""

    def sleaf(t):
        return D1 if t.a[1] == "A" else D0

    def kleaf(t):
        return Fr(1) if t.a[1] == "A" else Fr(0)

    def dep(t):
        return any(x.op == "col" and x.a[1] == "A" for x in leaves(t))

    def judge(run, s):
        W = run.W
        evs = W.events()
        if getattr(W, "allparams", False):
            sc = Scale(lambda t: D1 if t.a[1] in ("A", "B") else D0).roots(evs)
        else:
            sc = Scale(sleaf).roots(evs)
        sh = Shift(kleaf).roots(evs)
        want = getattr(W, "want", (D1, Fr(1)))
        for tag, t in getattr(W, "outputs", []):
            v, k = sc(t), sh(t)
            s.ob("results whose units were inferred")
            if isinstance(v, Deg) and v != want[0]:
                s.bad(f"scale:{tag.split('[')[0]}", f"{run.name}: {tag} has degree {v} in the unit of the parameter, expected {want[0]}: {show(t, 3)[:200]}", where(t))
            if isinstance(k, Fr) and k != want[1] or k == BAD:
                s.bad(f"shift:{tag.split('[')[0]}", f"{run.name}: {tag} does not move with the parameter ({k}): {show(t, 3)[:200]}", where(t))
            if v in (TOP, MIX) or k in (TOP, MIX):
                s.undecided(f"{run.name}: {tag}: scale {v} shift {k}")
        if getattr(W, "drawing", False):
            for e, k, t in drawn(W, W.events()):
                if e.name in ("set_xlim", "set_ylim") and dep(t) and k in ("0", "1", "left", "right", "bottom", "top", "xmin", "xmax", "ymin", "ymax"):
                    par = {x.a[1] for x in leaves(t) if x.op == "col" and x.a[1] in ("A", "B")}
                    xs = t.a[0] if t.op == "list" else (t,)
                    for x in xs:
                        v, kk = sc(x), sh(x)
                        s.ob("axis limits whose units were inferred")
                        if par == {"A"} and isinstance(v, Deg) and v not in (D1, D0, D1.scale(-1)):
                            s.bad(f"limit:{e.site[1]}:{e.name}", f"{run.name}: {e.name} limit has degree {v}: {show(x, 3)[:160]}", e.site)
                        if par == {"A"} and v == D1 and (isinstance(kk, Fr) and kk != 1 or kk == BAD):
                            s.bad(f"limitshift:{e.site[1]}:{e.name}", f"{run.name}: {e.name} limit does not move with the parameter ({kk}): {show(x, 3)[:160]}", e.site)
        for e in W.events():
            if e.kind == "rootfind":
                s.ob("root searches")
                u = sc.syms.get(e.var.term.id, TOP)
                for q in ("xtol",):
                    tol = e.kw.get(q)
                    if tol is None:
                        continue
                    tv = sc(to_term(tol))
                    if isinstance(u, Deg) and not u.zero and isinstance(tv, Deg) and tv != u:
                        s.bad(f"xtol:{e.site[1]}", f"{run.name}: root search in a unit-carrying variable (degree {u}) uses the absolute tolerance {q}={show(to_term(tol))}", e.site, stack=stack_txt(e))
        for t in list(run.I.atoms):
            if dep(t):
                sc(t)
                sh(t)
                s.ob("branch conditions checked")
        if getattr(W, "drawing", False):
            # only conditions and limits count in drawings
            pass
        if getattr(W, "drawing", False):
            # rescaling both parameters of a panel at once: grids, kernels and thresholds in two dimensions
            both = Scale(lambda t: D1 if t.a[1] in ("A", "B") else D0).roots(evs)
            for e, k, t in drawn(W, W.events()):
                if e.name in ("contour", "contourf") and dep(t):
                    s.ob("drawn surfaces whose units were inferred")
                    both(t)
            for t in list(run.I.atoms):
                if dep(t):
                    both(t)
            report(s, both, "scale", run)
        report(s, sc, "scale", run)
        report(s, sh, "shift", run)

    for vn, o, tk in VARIANTS:
        for st in STATS:
            sc = lambda W, o=o, st=st, tk=tk: summary_outputs(W, o, st, **tk)
            if ctx.tier == "thorough" or vn in ("default", "kde 1.2"):
                ctx.explore(f"{vn}/{st}", sc, judge, limit=80 if ctx.tier == "quick" else 500)
            else:
                ctx.queue(f"{vn}/{st}", sc, judge)
    ctx.flush()

    def shifted(W, st, o):
        summary_outputs(W, {**o, "shift_params": True}, st)
        W.want = (D1, Fr(0))

    for st in STATS:
        ctx.queue(f"centred parameters/{st}", lambda W, st=st: shifted(W, st, {}), judge)
        ctx.queue(f"centred parameters, kde/{st}", lambda W, st=st: shifted(W, st, {"kde": 1.1}), judge)
    ctx.flush()

    def crit(W):
        criteria_outputs(W)
        W.want = (D0, Fr(0))

    ctx.explore("criteria", crit, judge, limit=60)

    def diag(W):
        cc, ch = std(W)
        W.mark()
        W.want = (D0, Fr(0))
        W.outputs = []
        for m in ("gelman_rubin", "geweke"):
            r = W.call(W.attr(cc, "diagnostic"), m, ch[0])
            W.outputs += [(f"{m}{q}", t) for q, t in flat(r)]

    ctx.explore("diagnostics", diag, judge, limit=60)

    def diag2(W):
        diag(W)
        W.allparams = True

    ctx.explore("diagnostics, all parameters rescaled", diag2, judge, limit=60)

    def diag1(W):
        """chains of a single parameter"""
        ch = W.chain("X", label="X", cols=("A",), walkers=2)
        cc = W.consumer(ch)
        W.mark()
        W.want = (D0, Fr(0))
        W.outputs = []
        for m in ("gelman_rubin", "geweke"):
            r = W.call(W.attr(cc, "diagnostic"), m, ch)
            W.outputs += [(f"{m}{q}", t) for q, t in flat(r)]

    ctx.explore("diagnostics of one parameter", diag1, judge, limit=60)

    def corr(W):
        matrix_outputs(W, {})
        W.outputs = W.correlations
        W.allparams = True
        W.want = (D0, Fr(0))

    ctx.explore("correlation", corr, judge)

    def extents(W):
        ch = W.chain("X", label="X")
        W.mark()
        f = W.I.load("chainconsumer.helpers").ns.get("get_extents")
        W.outputs = []
        if f is None:
            return
        d = W.call(ch, "get_data", "A")
        w = W.attr(ch, "weights")
        for kw in ({}, {"plot": True}, {"plot": True, "wide_extents": False}, {"tiny": True}, {"pad": True}):
            r = W.I.call(f, [d, w], kw)
            W.outputs += [(f"extents{q}", t) for q, t in flat(r)]

    ctx.explore("extents", extents, judge)
    for m in PLOTS:
        for vn, o in (("default", {}), ("kde", {"kde": 1.2}), ("grid", {"grid": True}), ("hdi", None)):
            def draw(W, o=o, m=m):
                oo = o if o is not None else {"statistics": S(W, "HDI"), "multimodal": True}
                cc, ch = std(W, opts1=oo)
                W.mark()
                W.drawing = True
                W.call(W.attr(cc, "plotter"), m)

            ctx.explore(f"{m}/{vn}", draw, judge, depth=1 if vn == "default" or ctx.tier == "thorough" else 0, limit=60 if ctx.tier == "quick" else 400)


# ---------------------------------------------------------------------------------------------- C13 / C14
CRIT = ("aic", "bic", "dic")


def crit_chains(W, specs):
    """chains given as (posterior, k, N) presence; k and N are symbolic"""
    out = []
    for i, (post, k, n) in enumerate(specs):
        nm = f"X{i + 1}"
        o = {}
        if k is not None:
            o["num_free_params"] = W.opt(nm, "num_free_params", 2 + i) if k is True else k
        if n is not None:
            o["num_eff_data_points"] = W.opt(nm, "num_eff_data_points", 30.0 + i) if n is True else n
        out.append(W.chain(f"name {nm}", label=nm, posterior=post, **o))
    return out


def criteria_runs(W, specs):
    ch = crit_chains(W, specs)
    cc = W.consumer(*ch)
    W.mark()
    W.specs = specs
    W.crit = {}
    W.logs = {}
    W.crash = {}
    for m in CRIT:
        n0 = len(W.I.events)
        W.crit[m] = W.call(W.attr(cc, "comparison"), m)
        W.logs[m] = [e for e in W.I.events[n0:] if e.kind in ("log", "warn") or e.kind == "ext" and e.name == "warn"]
    return ch


SPECS = [
    ("complete", [(True, True, True), (True, True, True)]),
    ("three", [(True, True, True), (True, True, True), (True, True, True)]),
    ("single", [(True, True, True)]),
    ("k=0", [(True, 0, True), (True, True, True)]),
    ("no posterior first", [(False, True, True), (True, True, True), (True, True, True)]),
    ("no k middle", [(True, True, True), (True, None, True), (True, True, True)]),
    ("no N last", [(True, True, True), (True, True, True), (True, True, None)]),
    ("only posterior", [(True, None, None), (True, True, True)]),
    ("nothing", [(False, None, None), (False, None, None)]),
    ("nothing but k", [(False, True, None), (True, True, True)]),
    ("no chains", []),
    ("all missing N", [(True, True, None), (True, 0, None)]),
]


def needed(m, spec):
    post, k, n = spec
    return post and (m == "dic" or (k is not None and n is not None))


def raw_values(N, res):
    """(normal form of result, pick atom or None, raw value) per chain"""
    out = {}
    for name, v in res.items():
        t = v.term if isinstance(v, SV) else None
        if t is None:
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                from norm import const

                out[name] = (const(Fr(v)), None, None, None)
            else:
                out[name] = None
            continue
        r = N(t)
        from norm import Rat

        ids = sorted({i for p in (r.n, r.d) for m in p for i, _ in m if N.info[i][0][0] == "pick"})
        cands = []
        for i in ids:
            raw = r.add(Rat({((i, Fr(1)),): Fr(1)}, {(): Fr(1)}))
            if not any(j == i for p in (raw.n, raw.d) for m in p for j, _ in m):
                cands.append((i, raw))
        if len(cands) > 1:
            own = [(i, raw) for i, raw in cands if raw.canon() in N.info[i][0][2]]
            cands = own or [c for c in cands if N.info[c[0]][0][1] == "min"]
        if len(cands) == 1:
            out[name] = (r, cands[0][0], cands[0][1], t)
        else:
            out[name] = (r, "odd" if ids else None, r, t)
    return out


UNDERSTOOD = {"max", "min", "sum", "count", "log", "opt", "pick", "griddata", "pow", "col"}


def understood(N, r):
    return all(N.info[i][0][0] in UNDERSTOOD for p in (r.n, r.d) for m in p for i, _ in m)


def C13(ctx):
    """The results of aic/bic/dic are put into rational normal form (free-parameter and data-point counts symbolic) and must be raw_i - min over exactly the raw values of
    the reported chains; the reported chains are exactly those with the required inputs (every presence pattern of posterior, k and N incl. k=0), each under its own name,
    a warning naming every other chain; shifting all log posteriors by one constant must not change any result (translation domain)."""
    from norm import Norm

    def judge(run, s):
        W = run.W
        if not hasattr(W, "specs"):
            return
        if run.exc is not None:
            if run.base and not run.exc.implicit:
                s.bad(f"error:{run.exc.cname}", f"{run.name}: computing the criteria raises {run.exc}", "comparisons")
            else:
                s.undecided(f"{run.name}: {run.exc}")
            return
        sh = Shift(lambda t: Fr(1) if t.a[1] == "log_posterior" else Fr(0))
        N = Norm()
        for m in CRIT:
            res = W.crit[m]
            if not isinstance(res, VDict):
                s.undecided(f"{m}: result is not a dict")
                continue
            want = [f"name X{i + 1}" for i, sp in enumerate(W.specs) if needed(m, sp)]
            got = [k for k, _ in res.items()]
            s.check(got == want or sorted(map(str, got)) == sorted(want), "reported chain sets", f"{m}:chains", f"{run.name}: {m} reports {got}, chains with all inputs are {want}", "comparisons")
            if not all(isinstance(k, str) for k in got):
                continue
            for i, sp in enumerate(W.specs):
                nm = f"name X{i + 1}"
                if needed(m, sp):
                    continue
                said = [e for e in W.logs[m] if mentions(e, nm)]
                s.check(bool(said), "omitted chains warned about", f"{m}:warn", f"{run.name}: {m} leaves out {nm} without a warning naming it", "comparisons")
            vals = raw_values(N, res)
            if any(v is None for v in vals.values()):
                s.undecided(f"{run.name}: {m} result not a number term")
                continue
            raws = {n: v[2] for n, v in vals.items()}
            for n, (r, pk, raw, t) in vals.items():
                s.ob("results compared with raw minus minimum")
                own = {x.a[0] for x in leaves(t)if x.op == "col"} if t is not None else set()
                if r.iszero() and len(vals) == 1:
                    continue
                if len(vals) == 1:
                    if understood(N, r):
                        s.bad(f"{m}:single", f"{run.name}: {m} of the only reported chain is not zero: {show(t, 4)[:200] if t is not None else r}", where(t) if t is not None else None)
                    continue
                if isinstance(pk, int):
                    k = N.info[pk][0]
                    keys = {x.canon() for x in raws.values()}
                    if k[1] != "min":
                        s.bad(f"{m}:max", f"{run.name}: {m} is relative to the largest value instead of the smallest", where(t))
                    elif set(k[2]) != keys:
                        s.bad(f"{m}:min", f"{run.name}: {m} of {n} is relative to the minimum of a different set of values than the {len(keys)} reported ones", where(t), minimum_over=len(k[2]))
                elif understood(N, r) and not run.flips and not any(x.op == "cmp" for x in run.I.atoms):
                    s.bad(f"{m}:relative", f"{run.name}: {m} of {n} is not reported relative to the smallest value: {show(t, 4)[:200] if t is not None else r}", where(t) if t is not None else None)
                else:
                    s.undecided(f"{run.name}: {m} {n}: no minimum found")
                if t is not None:
                    k = sh(t)
                    s.ob("results checked for invariance under a common shift")
                    if isinstance(k, Fr) and k != 0 or k == BAD:
                        s.bad(f"{m}:shift", f"{run.name}: adding a constant to all log posteriors changes {m} ({k})", where(t))
                # each chain under its own name
                lab = n.split()[-1]
                if t is not None and isinstance(pk, int) and understood(N, raw):
                    mine = {x.a[0] for x in raw_leaves(N, raw)}
                    s.check(mine <= {lab}, "results attributed to their own chain", f"{m}:own", f"{run.name}: {m} reported under {n} depends on {sorted(mine)}", where(t))

    for n, sp in SPECS:
        ctx.explore(n, lambda W, sp=sp: criteria_runs(W, sp), judge, limit=60)


def raw_leaves(N, r):
    """columns and options in a normal form"""
    out = set()

    def walk(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == "col":
                out.add(Leafy(k[1], k[2]))
            elif len(k) == 3 and k[0] == "opt":
                out.add(Leafy(k[1].strip("'"), k[2].strip("'")))
            elif len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], Fr):
                walk(N.info[k[0]][0])
            else:
                for x in k:
                    walk(x)

    for p in (r.n, r.d):
        for m in p:
            for i, _ in m:
                walk(N.info[i][0])
    return out


class Leafy:
    def __init__(self, a, b):
        self.a = (a, b)

    def __hash__(self):
        return hash(self.a)

    def __eq__(self, o):
        return self.a == o.a


def mentions(e, name):
    """can the text of a warning contain the name"""
    def txt(v):
        if isinstance(v, str):
            return v
        if isinstance(v, SV):
            return " ".join(str(x.a[0]) for x in subterms(v.term) if x.op == "c")
        return ""

    if e.kind == "log" and e.d.get("name") in ("debug", "info"):
        return False
    return any(name in txt(a) for a in (e.d.get("args") or ()))


def C14(ctx):
    """With symbolic counts k and N the raw value of each criterion (result plus the subtracted minimum) must equal the documented formula up to one offset common to
    all chains, compared as rational normal forms; the DIC's deviance at the mean is an interpolation of that chain's own deviance over that chain's own parameter columns at
    the weighted means of the same columns in the same order."""
    from norm import Norm, const

    def expected(m, lab, spec):
        P = mk("col", lab, "log_posterior")
        w = mk("col", lab, "weight")
        k = mk("opt", lab, "num_free_params") if spec[1] is True else mk("c", spec[1])
        n = mk("opt", lab, "num_eff_data_points")
        C = lambda v: mk("c", v)  # noqa: E731
        b = lambda o, x, y: mk("bin", o, x, y)  # noqa: E731
        mx = mk("call", "numpy.max", (("a", P),))
        if m == "aic":
            return b("+", b("-", b("*", C(2), k), b("*", C(2), mx)), b("/", b("*", C(2), b("*", k, b("+", k, C(1)))), b("-", b("-", n, k), C(1))))
        if m == "bic":
            return b("-", b("*", k, mk("call", "numpy.log", (("x", n),))), b("*", C(2), mx))
        return b("*", C(-4), mk("call", "numpy.average", (("a", P), ("weights", w))))

    def judge(run, s):
        W = run.W
        if not hasattr(W, "specs") or run.exc is not None:
            return
        N = Norm()
        for m in CRIT:
            res = W.crit[m]
            if not isinstance(res, VDict):
                continue
            vals = raw_values(N, res)
            offs = {}
            for n, v in vals.items():
                if v is None or not isinstance(v[1], int):
                    s.undecided(f"{run.name}: {m} {n}: raw value not recovered")
                    continue
                lab = str(n).split()[-1]
                e = N(expected(m, lab, W.specs[int(lab[1:]) - 1]))
                d = v[2].add(e.scale(Fr(-1)))
                if m == "dic":
                    d = dic_rest(run, s, N, d, lab, v[3], n)
                    if d is None:
                        continue
                offs[n] = (d, v[3])
            for n, (d, t) in offs.items():
                s.ob("raw values compared with the documented formula")
                if not understood(N, d):
                    s.undecided(f"{run.name}: {m} {n}: unknown atoms")
                    continue
                others = [x for k, (x, _) in offs.items() if k != n]
                own = {x.a[0] for x in raw_leaves(N, d)}
                if own or any(not x.same(d) for x in others):
                    from norm import describe

                    s.bad(f"{m}:formula", f"{run.name}: {m} of {n} differs from the documented formula by {describe(N, d)[:200]}", where(t), result=show(t, 6))

    def dic_rest(run, s, N, d, lab, t, name):
        """remove 2*(interpolated log posterior at the weighted means); check that interpolation"""
        atoms = [i for m in d.n for i, _ in m if N.info[i][0][0] == "griddata"]
        if len(set(atoms)) != 1:
            if not atoms and understood(N, d):
                s.bad("dic:mean", f"{run.name}: the DIC of {name} has no deviance at the mean parameters", where(t))
            else:
                s.undecided(f"{run.name}: dic {name}: interpolation not recognised")
            return None
        i = atoms[0]
        from norm import Rat

        key = N.info[i][0]
        P = N(mk("col", lab, "log_posterior")).canon()
        s.check(key[1] == P, "interpolated deviances", "dic:values", f"{run.name}: the DIC of {name} interpolates something other than its own deviance", where(t))
        cols = ["A", "B"]
        for g in subterms(t):
            if g.op == "call" and short(g) == "griddata" and any(x.op == "col" and x.a[0] == lab for x in leaves(g)):
                pts, xi = callarg(g, "points"), callarg(g, "xi")
                pc = cols_of(pts)
                if pc is not None:
                    s.check(sorted(pc) == sorted((lab, c) for c in cols), "interpolation points", "dic:points", f"{run.name}: the DIC of {name} interpolates over {pc}", where(g))
                xs = xi_list(xi)
                if pc is None or xs is None:
                    s.undecided(f"{run.name}: dic: points or mean not recognised")
                    continue
                exp = [N(mk("call", "numpy.average", (("a", mk("col", *c)), ("weights", mk("col", lab, "weight"))))) for c in pc]
                got = [N(x) for x in xs]
                ok = len(exp) == len(got) and all(a.same(b) for a, b in zip(exp, got))
                if ok or all(understood(N, x) for x in got):
                    s.check(ok, "means of the interpolation", "dic:at", f"{run.name}: the DIC of {name} evaluates the deviance at something other than the weighted means of {pc}", where(xi))
                else:
                    s.undecided(f"{run.name}: dic: mean not recognised")
        return d.add(Rat({((i, Fr(1)),): Fr(-2)}, {(): Fr(1)}))

    def cols_of(t):
        if t is None:
            return None
        if t.op == "frame":
            return [c.a for c in t.a[1] if isinstance(c, Term) and c.op == "col"] if all(isinstance(c, Term) and c.op == "col" for c in t.a[1]) else None
        if t.op == "list" and all(x.op == "col" for x in t.a[0]):
            return [x.a for x in t.a[0]]
        if t.op == "T":
            return cols_of(t.a[0])
        if t.op == "call" and short(t) in ("array", "asarray", "column_stack", "vstack", "stack", "to_numpy"):
            for _, v in t.a[1]:
                if isinstance(v, Term) and v.op in ("frame", "list", "T"):
                    return cols_of(v)
        return None

    def xi_list(t):
        if t is None:
            return None
        if t.op == "list":
            if len(t.a[0]) == 1 and t.a[0][0].op == "list":
                return xi_list(t.a[0][0])
            return list(t.a[0])
        if t.op == "call" and short(t) in ("array", "asarray", "atleast_2d"):
            return xi_list(t.a[1][0][1])
        if t.op == "call" and short(t) == "average":
            a = callarg(t, "a")
            if isinstance(a, Term) and a.op == "frame":
                return [mk("call", t.a[0], tuple((k, c if k == "a" else v) for k, v in t.a[1] if k != "axis")) for c in a.a[1]]
        return None

    for n, sp in SPECS:
        if n not in ("single", "nothing", "no chains"):
            ctx.explore(n, lambda W, sp=sp: criteria_runs(W, sp), judge, limit=60)


# ---------------------------------------------------------------------------------------------- C10
WOPS = {"histogram": ("a", "weights"), "average": ("a", "weights"), "cov": ("m", "aweights"), "histogram2d": ("x", "weights"), "histogramdd": ("sample", "weights"), "bincount": ("x", "weights")}
PLAIN = {"mean", "median", "std", "var", "percentile", "quantile", "nanmean", "nanmedian", "nanstd", "nanpercentile", "nanquantile"}


def strip_item(t):
    while isinstance(t, Term) and (t.op in ("item", "ravel", "T", "reshape") or t.op == "call" and short(t) in ("asarray", "array", "atleast_1d", "ravel")) and isinstance(t.a[0] if t.op != "call" else t.a[1][0][1], Term):
        t = t.a[0] if t.op != "call" else t.a[1][0][1]
    return t


def direct(t, wcol, stop, memo):
    """does a term depend on a weight column other than through the calls in `stop`"""
    r = memo.get(t.id)
    if r is not None:
        return r
    memo[t.id] = False
    if t.op == "col":
        r = t.a[1] == wcol
    elif t.op == "call" and short(t) in stop:
        r = False
    else:
        r = any(direct(x, wcol, stop, memo) for x in subs(t))
    memo[t.id] = r
    return r


def C10(ctx):
    """Provenance analysis of every histogram, average, covariance, kernel sum and plain mean in the terms of all summaries, matrices, criteria, extents and drawings: the weight
    argument must be the weight column of the same chain on the same row selection, up to a row-independent factor; combined arrays (x, y, colour, log posterior, values) must
    run over the same rows of the same chain; kernel sums must depend on the weights directly. Decided with a row-selection domain over def-use terms."""
    from norm import Norm

    def judge(run, s):
        W = run.W
        wname = getattr(W, "wname", "weight")
        N = Norm()
        rows = Rows(lambda t: None)
        seen = set()
        roots = list(getattr(W, "outputs", []))
        walks = "plot_walks" in run.name
        if getattr(W, "drawing", False):
            roots += [(f"{e.name} {k}", t) for e, k, t in drawn(W, W.events())]
        for tag, root in roots:
            for t in subterms(root):
                if t.id in seen or t.op not in ("call", "bin"):
                    continue
                seen.add(t.id)
                if t.op == "call" and short(t) in WOPS:
                    weighted(run, s, N, rows, t, *WOPS[short(t)], wname)
                elif t.op == "call" and short(t) in PLAIN and not walks:
                    x = arg0(t)
                    v = rows(x) if isinstance(x, Term) else None
                    s.ob("plain averages looked at")
                    if isinstance(v, tuple) and any(y.op == "col" and y.a[1] != wname for y in leaves(x)):
                        s.bad(f"plain:{short(t)}:{site_fn(t)}", f"{run.name}: {tag}: unweighted {short(t)} over the samples of chain {v[0]}", where(t))
                elif t.op == "call" and short(t) == "griddata":
                    aligned(run, s, rows, t, [callarg(t, "points"), callarg(t, "values")], "griddata points and values")
                elif t.op == "bin":
                    a, b = t.a[1], t.a[2]
                    if isinstance(a, Term) and isinstance(b, Term):
                        va, vb = rows(a), rows(b)
                        if isinstance(va, tuple) and isinstance(vb, tuple):
                            s.ob("row-wise combinations checked")
                            ca, cb = {x.a[1] for x in leaves(a) if x.op == "col"}, {x.a[1] for x in leaves(b) if x.op == "col"}
                            if va[0] != vb[0] or (va != vb and ca != cb):
                                s.bad(f"rows:{site_fn(t)}:{t.a[0]}", f"{run.name}: {tag}: combines rows {rtxt(va)} with rows {rtxt(vb)}", where(t), term=show(t, 4))
        if getattr(W, "drawing", False):
            for e in W.events():
                if e.kind == "ext" and e.name in ("scatter", "plot", "fill_between", "fill_betweenx", "hist", "hist2d", "contour", "contourf", "errorbar"):
                    ta = [x for x in (e.d.get("targs") or ()) if isinstance(x, Term)]
                    kw = e.d.get("tkw") or {}
                    ta += [kw[k] for k in ("x", "y", "c", "weights", "s") if isinstance(kw.get(k), Term)]
                    aligned(run, s, rows, None, ta, f"arguments of {e.name}", e)
        for t in getattr(W, "kernels", []):
            s.ob("kernel density values that must use the weights")
            if not direct(t, wname, {"average", "cov", "sum_of_weights"}, {}):
                s.bad("kernel", f"{run.name}: the kernel density estimate does not weight its samples", where(t), term=show(t, 5))

    def rtxt(v):
        return f"{v[0]}{'' if not v[1] else '[subset]'}"

    def site_fn(t):
        w = where(t)
        return w[1] if isinstance(w, tuple) else str(w)

    def arg0(t):
        return t.a[1][0][1] if t.a[1] else None

    def aligned(run, s, rows, t, xs, what, e=None):
        vs = [(x, rows(x)) for x in xs if isinstance(x, Term)]
        vs = [(x, v) for x, v in vs if isinstance(v, tuple)]
        if len(vs) < 2:
            return
        s.ob("row alignments checked")
        st = e.site if e is not None else where(t)
        for x, v in vs[1:]:
            if v != vs[0][1]:
                s.bad(f"align:{st[1] if isinstance(st, tuple) else st}:{what}", f"{run.name}: {what} run over different rows: {rtxt(vs[0][1])} and {rtxt(v)}", st, first=show(vs[0][0], 3), second=show(x, 3))

    def weighted(run, s, N, rows, t, an, wn, wname):
        data = callarg(t, an) if callarg(t, an) is not None else arg0(t)
        w = callarg(t, wn)
        if not isinstance(data, Term):
            return
        v = rows(data)
        cols = {x.a[1] for x in leaves(data) if x.op == "col"}
        if not isinstance(v, tuple):
            if v == TOP and cols:
                s.undecided(f"{run.name}: rows of {short(t)} data unknown")
            return
        if short(t) == "histogram2d":
            aligned(run, s, rows, t, [data, callarg(t, "y")], "histogram2d axes")
        s.ob("weighted operations")
        fn = site_fn(t)
        if not isinstance(w, Term) or (w.op == "c" and w.a[0] is None) or num(w) is not None:
            if cols - {wname}:
                s.bad(f"unweighted:{short(t)}:{fn}", f"{run.name}: {short(t)} over the samples of chain {v[0]} is not weighted", where(t), term=show(t, 3))
            return
        wv = rows(w)
        if isinstance(wv, tuple) and wv != v:
            s.bad(f"wrows:{short(t)}:{fn}", f"{run.name}: {short(t)} weights rows {rtxt(v)} with the weights of rows {rtxt(wv)}", where(t), term=show(t, 3))
            return
        b = strip_item(w)
        wr = N(b)
        m = {k for p in (wr.n, wr.d) for mm in p for k, _ in mm if N.info[k][1]}
        keys = {N.info[k][0] for k in m}
        good = keys == {("col", v[0], wname)} and all(sum(ex for k, ex in mm if N.info[k][1]) == 1 for mm in wr.n) and not any(N.info[k][1] for mm in wr.d for k, _ in mm)
        if good:
            s.ob("weights identified with the chain's own weight column")
            return
        lv = {x.a for x in leaves(w) if x.op == "col"}
        clear = all(x.op in ("bin", "un", "col", "c", "item", "slice") or x.op == "call" and short(x) in ("sqrt", "log", "log10", "exp", "power", "square", "ones_like", "ones", "abs", "sum", "max", "min", "asarray", "array") for x in subterms(w))
        if (v[0], wname) not in lv or clear:
            s.bad(f"weights:{short(t)}:{fn}", f"{run.name}: {short(t)} over chain {v[0]} is weighted by {show(w, 3)[:120]} instead of that chain's weight column", where(t))
        else:
            s.undecided(f"{run.name}: weights of {short(t)}: {show(w, 3)[:100]}")

    q = ctx.tier == "quick"
    for vn, o, tk in VARIANTS:
        for st in STATS:
            sc = lambda W, o=o, st=st, tk=tk: summary_outputs(W, o, st, **tk)  # noqa: E731
            if not q or vn in ("default", "kde 1.2", "grid"):
                ctx.explore(f"{vn}/{st}", sc, judge, limit=60 if q else 400)
            else:
                ctx.queue(f"{vn}/{st}", sc, judge)

    def custom(W, stat):
        W.wname = "w8"
        tb = W.table("X", wname="w8", pname="lp")
        W.outputs = []
        ch = summary_outputs(W, {"weight_column": "w8", "posterior_column": "lp", "table": tb}, stat)
        W.outputs += [("covariance", t) for _, t in flat(W.attr(W.call(ch, "get_covariance"), "matrix"))]

    for st in ("MAX", "HDI"):
        ctx.queue(f"custom weight column/{st}", lambda W, st=st: custom(W, st), judge)
    ctx.flush()
    ctx.explore("matrices", lambda W: matrix_outputs(W, {}), judge)
    ctx.explore("matrices of one column", one_column, judge)
    ctx.explore("criteria", lambda W: criteria_outputs(W), judge, limit=60)
    ctx.explore("shifted chain", lambda W: (W.mark(), shifted_outputs(W)), judge)
    for vn, o, tk in VARIANTS:
        for m in PLOTS:
            def draw(W, o=o, m=m):
                cc, ch = std(W, opts1=o, opts2={"plot_cloud": True, "plot_point": True, "color_param": "B", "num_cloud": 100}, cols2=("A", "B", "C"))
                W.mark()
                W.drawing = True
                W.call(W.attr(cc, "plotter"), m)

            if not q or vn in ("default", "kde 1.2"):
                ctx.explore(f"{m}/{vn}", draw, judge, limit=60 if q else 400)
            else:
                ctx.queue(f"{m}/{vn}", draw, judge)
        def free(W, o=o):
            ch = W.chain("X", label="X", plot_cloud=True, color_param="C", color="#112233", cols=("A", "B", "C"), **o)
            W.mark()
            W.drawing = True
            free_plots(W, ch)

        ctx.queue(f"free functions/{vn}", free, judge)
    ctx.flush()
    for dim in (1, 2):
        def kern(W, dim=dim):
            ch = W.chain("X", label="X")
            W.mark()
            K = W.cls("kde.MegKDE")
            fr = W.attr(ch, "samples")
            x = W.I.call(W.attr(W.call(fr, "__getitem__", VList(["A", "B"])), "to_numpy"), [], {}) if dim == 2 else W.I.call(W.attr(W.call(ch, "get_data", "A"), "to_numpy"), [], {})
            k = W.I.instantiate(K, [x, W.attr(ch, "weights")], {})
            r = W.call(k, "evaluate", x)
            W.outputs = [(f"density{p}", t) for p, t in flat(r)]
            W.kernels = []
            for _, t in W.outputs:
                W.kernels += list(t.a[0]) if t.op == "list" else [t]

        ctx.explore(f"kernel density in {dim} dimensions", kern, judge)


def one_column(W):
    ch = W.chain("X", label="X", cols=("A",))
    W.mark()
    W.outputs = [("covariance", t) for _, t in flat(W.attr(W.call(ch, "get_covariance"), "matrix"))]


def free_plots(W, ch):
    """the drawing functions that are public on their own"""
    I = W.I
    m = I.load("chainconsumer.plotting")
    pl = I.load("chainconsumer.plotting.contours").ns
    cfg = W.config()
    W.axes_free = []

    def ax():
        a = I.lib.new_axes() if hasattr(I.lib, "new_axes") else ExtObj("Axes", f"free{len(W.axes_free)}", meta={"row": 0, "col": 0, "nrows": 1, "ncols": 1})
        W.axes_free.append(a)
        return a

    for n, a in (("plot_dist", ("A",)), ("plot_contour", ("A", "B")), ("plot_point", ("A", "B")), ("plot_cloud", ("A", "B"))):
        f = pl.get(n) or m.ns.get(n)
        if f is None:
            continue
        if n == "plot_dist":
            I.call(f, [ax(), ch, *a], {"config": cfg, "summary": True})
        elif n == "plot_contour":
            I.call(f, [ax(), ch, *a, cfg], {})
        else:
            I.call(f, [ax(), ch, *a], {})
    f = pl.get("plot_surface")
    if f is not None:
        I.call(f, [ax(), VList([ch]), "A", "B", cfg], {})


# ---------------------------------------------------------------------------------------------- C26
class Entries:
    """(i, j) entry of a matrix term / i-th entry of a vector term as a normal form over covariance entries"""

    def __init__(self, N):
        self.N = N

    def covs(self, t):
        return [x for x in subterms(t) if x.op == "call" and short(x) == "cov"]

    def mat(self, t, i, j):
        N = self.N
        if num(t) is not None:
            return N(t)
        if t.op == "call":
            n = short(t)
            a = t.a[1][0][1] if t.a[1] else None
            if n == "cov":
                return N.atom(("cov", t.id, min(i, j), max(i, j)))
            if n in ("atleast_2d", "asarray", "array", "nan_to_num", "clip", "to_numpy", "copy"):
                return self.mat(a, i, j)
            if n == "sqrt":
                x = self.mat(a, i, j)
                return x and N.power(x, Fr(1, 2), t)
            if n == "outer":
                x, y = self.vec(a, i), self.vec(t.a[1][1][1], j)
                return x and y and x.mul(y)
            if n in ("diag", "diagflat"):
                from norm import const

                if not isinstance(a, Term) or self.mat(a, 0, 0) is not None:
                    return None
                return self.vec(a, i) if i == j else const(Fr(0))
            if n in ("dot", "matmul"):
                return self.dot(a, t.a[1][1][1], i, j)
            if n in ("inv",):
                x = self.diagonal(a)
                from norm import const

                return None if x is None else (x(i).inv() if i == j else const(Fr(0)))
        if t.op == "bin":
            if t.a[0] == "@":
                return self.dot(t.a[1], t.a[2], i, j)
            x, y = self.any(t.a[1], i, j), self.any(t.a[2], i, j)
            if x is None or y is None:
                return None
            return {"+": lambda: x.add(y), "-": lambda: x.add(y.scale(Fr(-1))), "*": lambda: x.mul(y), "/": lambda: None if y.iszero() else x.mul(y.inv()), "**": lambda: N.power(x, y.asconst(), t) if y.asconst() is not None else None}.get(t.a[0], lambda: None)()
        if t.op == "newaxis":
            k = t.a[1]
            if k in (("n", "s"), ("n",)):
                return self.vec(t.a[0], j)
            if k == ("s", "n"):
                return self.vec(t.a[0], i)
        if t.op == "T":
            return self.mat(t.a[0], j, i)
        if t.op == "un" and t.a[0] == "-":
            x = self.mat(t.a[1], i, j)
            return x and x.scale(Fr(-1))
        return None

    def any(self, t, i, j):
        if num(t) is not None:
            return self.N(t)
        x = self.mat(t, i, j)
        return x if x is not None else self.vec(t, j)

    def dot(self, a, b, i, j):
        x = self.diagonal(a)
        if x is not None:
            m = self.mat(b, i, j)
            return m and m.mul(x(i))
        x = self.diagonal(b)
        if x is not None:
            m = self.mat(a, i, j)
            return m and m.mul(x(j))
        return None

    def diagonal(self, t):
        if t.op == "call" and short(t) in ("diag", "diagflat") and self.vec(t.a[1][0][1], 0) is not None and self.mat(t.a[1][0][1], 0, 0) is None:
            return lambda i: self.vec(t.a[1][0][1], i)
        if t.op == "call" and short(t) == "inv":
            x = self.diagonal(t.a[1][0][1])
            return None if x is None else (lambda i: x(i).inv())
        return None

    def vec(self, t, i):
        N = self.N
        if num(t) is not None:
            return N(t)
        if t.op == "call":
            n = short(t)
            a = t.a[1][0][1] if t.a[1] else None
            if n in ("diag", "diagonal") and isinstance(a, Term):
                return self.mat(a, i, i)
            if n == "sqrt":
                x = self.vec(a, i)
                return x and N.power(x, Fr(1, 2), t)
            if n in ("asarray", "array", "ravel"):
                return self.vec(a, i)
        if t.op == "bin":
            x, y = self.vec(t.a[1], i), self.vec(t.a[2], i)
            if x is None or y is None:
                return None
            return {"*": lambda: x.mul(y), "/": lambda: None if y.iszero() else x.mul(y.inv()), "+": lambda: x.add(y), "-": lambda: x.add(y.scale(Fr(-1))), "**": lambda: N.power(x, y.asconst(), t) if y.asconst() is not None else None}.get(t.a[0], lambda: None)()
        return None


def C26(ctx):
    """Shape, order and weights of the covariance term returned for every requested column list (default, reordered, subset, single column; custom weight column), entrywise
    normal form of the correlation (C_ij / sqrt(C_ii C_jj)), equality of returned column names and data order, and cell-by-cell provenance of the LaTeX tables."""
    from norm import Norm
    from tables import Table

    CASES = [("default", None, ("A", "B", "C")), ("reordered", ("C", "A", "B"), ("A", "B", "C")), ("pair", ("B", "A"), ("A", "B", "C")), ("single", ("A",), ("A", "B", "C")),
             ("single default", None, ("A",)), ("two default", None, ("B", "A"))]

    def scen(W, case, custom=False):
        name, cols, all_ = case
        o = {}
        if custom:
            o = {"table": W.table("X", cols=all_, wname="w8", pname="lp"), "weight_column": "w8", "posterior_column": "lp"}
        ch = W.chain("X", label="X", cols=all_, **o)
        cc = W.consumer(ch, config=W.config(labels=VDict([("A", "LA"), ("B", "LB")])))
        W.mark()
        W.want = list(cols or all_)
        W.wname = "w8" if custom else "weight"
        W.res = {}
        for m in ("get_covariance", "get_correlation"):
            W.res[m] = W.call(ch, m, **({"columns": VList(list(cols))} if cols else {}))
        W.tabs = {}
        for m in ("get_covariance_table", "get_correlation_table"):
            W.tabs[m] = W.call(W.attr(cc, "analysis"), m, ch, **({"columns": VList(list(cols))} if cols else {}))

    def judge(run, s):
        W = run.W
        if run.exc is not None:
            if run.base:
                s.bad(f"error:{run.exc.cname}", f"{run.name}: matrices or tables of {getattr(W, 'want', '?')} raise {run.exc}", "chain.py")
            return
        N = Norm()
        E = Entries(N)
        n = len(W.want)
        for m, r in W.res.items():
            got = W.attr(r, "columns")
            names = list(got.items) if isinstance(got, VList) else list(got) if isinstance(got, tuple) else None
            if names is not None and all(isinstance(x, str) for x in names):
                s.check(names == W.want, "column names of matrices", f"{m}:columns", f"{run.name}: {m} returns columns {names} for {W.want}", "chain.py")
            mat = W.attr(r, "matrix")
            if not isinstance(mat, SV):
                s.undecided(f"{m}: matrix not symbolic")
                continue
            t = mat.term
            s.check(mat.nd != 0 and mat.nd != 1, "matrix dimensions", f"{m}:shape", f"{run.name}: {m} of {n} column(s) is {mat.nd}-dimensional", where(t))
            covs = E.covs(t)
            if not covs:
                cc = [x for x in subterms(t) if x.op == "call" and short(x) == "corrcoef"]
                if cc:
                    s.bad(f"{m}:corrcoef", f"{run.name}: {m} ignores the weights (corrcoef)", where(cc[0]))
                else:
                    s.undecided(f"{m}: no covariance call recognised")
                continue
            for cv in covs:
                data, rv = callarg(cv, "m"), callarg(cv, "rowvar")
                d, flipped = data, False
                while isinstance(d, Term) and d.op in ("T",) or isinstance(d, Term) and d.op == "call" and short(d) in ("asarray", "array", "to_numpy"):
                    if d.op == "T":
                        flipped = not flipped
                        d = d.a[0]
                    else:
                        d = d.a[1][0][1]
                if not isinstance(d, Term) or d.op != "frame":
                    s.undecided(f"{m}: data of the covariance not recognised")
                    continue
                cols = [x.a[1] if x.op == "col" else None for x in d.a[1]]
                s.check(cols == W.want and all(x.a[0] == "X" for x in d.a[1] if x.op == "col"), "data columns of covariances", f"{m}:data", f"{run.name}: {m} for {W.want} is computed from the columns {cols}", where(cv))
                rowvar = not (isinstance(rv, Term) and rv.op == "c" and rv.a[0] in (False, 0))
                s.check(rowvar == flipped, "orientation of covariances", f"{m}:rowvar", f"{run.name}: {m} treats samples as variables", where(cv))
                w = callarg(cv, "aweights")
                fw = callarg(cv, "fweights")
                s.check(isinstance(w, Term) and any(x.op == "col" and x.a == ("X", W.wname) for x in leaves(w)) or isinstance(fw, Term) and fw.op != "c", "weights of covariances", f"{m}:weights", f"{run.name}: {m} is not weighted by the chain's weights", where(cv))
            cv = covs[0]
            atom = lambda i, j: N.atom(("cov", cv.id, min(i, j), max(i, j)))  # noqa: E731
            for i, j in ((0, 0), (0, 1), (1, 0)) if n > 1 else ((0, 0),):
                e = E.mat(t, i, j)
                if e is None:
                    s.undecided(f"{run.name}: {m}: entry form not recognised")
                    continue
                s.ob("matrix entries compared")
                want = atom(i, j)
                if m == "get_correlation":
                    sd = N.power(atom(i, i), Fr(1, 2), t).mul(N.power(atom(j, j), Fr(1, 2), t))
                    want = want.mul(sd.inv())
                    e2 = e
                if not e.same(want):
                    from norm import describe

                    s.bad(f"{m}:entry", f"{run.name}: {m}[{i},{j}] is {describe(N, e)[:160]} instead of {describe(N, want)[:160]} (c = covariance entries)", where(t), term=show(t, 6))
        LAB = {"A": "LA", "B": "LB", "C": "C"}
        for m, v in W.tabs.items():
            T = Table(v)
            if not T.ok or T.spec is None:
                s.undecided(f"{m}: table not parsed")
                continue
            want = [LAB[c] for c in W.want]
            s.check(bool(T.rows) and T.rows[0][1:] == want, "table headers", f"{m}:header", f"{run.name}: {m} header is {T.rows[0] if T.rows else None}, columns are {want}", "analysis.py")
            s.check([r[0] for r in T.rows[1:]] == want, "table row labels", f"{m}:rows", f"{run.name}: {m} row labels are {[T.plain(r[0]) for r in T.rows[1:]]}, expected {want}", "analysis.py")
            mat = W.attr(W.res[m.replace("_table", "")], "matrix")
            for i, r in enumerate(T.rows[1:]):
                for j, cell in enumerate(r[1:]):
                    ts = T.of(cell)
                    if len(ts) != 1:
                        continue
                    p = entry_of(ts[0], mat.term)
                    s.ob("table cells attributed")
                    if isinstance(p, tuple) and len(p) == 3:
                        e, w = E.mat(p[0], p[1], p[2]), E.mat(mat.term, i, j)
                        if e is None or w is None:
                            s.undecided(f"{m}: cell not recognised {show(ts[0], 3)[:100]}")
                        elif not e.same(w):
                            s.bad(f"{m}:matrix", f"{run.name}: {m} row {i + 1} column {j + 1} does not show that entry of {m.replace('_table', '')}", where(ts[0]))
                        continue
                    if p is not None and p != (i, j) and p != (j, i):
                        s.bad(f"{m}:cell", f"{run.name}: {m} row {i + 1} column {j + 1} shows matrix entry {p}", where(ts[0]))
                    elif p is None:
                        s.undecided(f"{m}: cell not recognised {show(ts[0], 3)[:100]}")

    def entry_of(t, m):
        """(i, j) if t shows m[i][j]"""
        while t.op == "fmt" or t.op == "call" and short(t) in ("float", "round", "str", "format"):
            t = next(x for x in t.a if isinstance(x, Term)) if t.op == "fmt" else t.a[1][0][1]
        ks = []
        while t.op in ("item", "elem") and t is not m:
            k = t.a[1]
            if isinstance(k, Term) and k.op == "list":
                ks = [x for x in k.a[0]] + ks
            elif isinstance(k, tuple):
                ks = list(k) + ks
            else:
                ks = [k] + ks
            t = t.a[0]
        ks = [int(num(k)) if isinstance(k, Term) and num(k) is not None else k for k in ks]
        if len(ks) == 2 and all(isinstance(k, int) for k in ks):
            return tuple(ks) if t is m else (t, *ks)
        return None

    for c in CASES:
        for cu in (False, True):
            ctx.explore(c[0] + (" custom weights" if cu else ""), lambda W, c=c, cu=cu: scen(W, c, cu), judge)


RULES = {"C26": C26, "C10": C10, "C11": C11, "C12": C12, "C13": C13, "C14": C14}
