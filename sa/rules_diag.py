"""Diagnostics (C19)."""
from __future__ import annotations

from itertools import product

from classes import Classes, No
from common import *  # noqa: F403
from common import S, std
from terms import Term, leaves, mk, num, show, subterms
from values import SV, Inst, PyExc, VDict, VList

SETTINGS = {"gelman_rubin": {"threshold": 0.05}, "geweke": {"first": 0.1, "last": 0.5, "threshold": 0.05}}


def diff(a, b, out=None):
    """minimal differing positions of two terms"""
    out = [] if out is None else out
    if a is b or (not isinstance(a, (Term, tuple)) and a == b):
        return out
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.a) == len(b.a) and a.op not in ("opt", "c", "col", "nrows"):
        for x, y in zip(a.a, b.a):
            diff(x, y, out)
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            diff(x, y, out)
        return out
    out.append((a, b))
    return out


def norm_atom(t):
    neg = False
    while isinstance(t, Term) and t.op == "not":
        neg, t = not neg, t.a[0]
    if t.op == "cmp" and t.a[0] == "<=":
        t, neg = mk("cmp", "<", t.a[2], t.a[1]), not neg
    return t, neg


def outcome(W, v, cl=None):
    """True/False of a verdict under the preset atoms, None when unknown"""
    if isinstance(v, bool):
        return v
    if not isinstance(v, SV):
        return None
    t, neg = norm_atom(v.term)
    if t.op == "c":
        return bool(t.a[0]) != neg
    if t in W.I.atoms:
        return W.I.atoms[t] != neg
    if cl is not None:
        try:
            r = cl.ev(t)
            if isinstance(r, bool):
                return r != neg
        except No:
            pass
        except Exception:  # noqa: BLE001
            pass
    return None


def has(t, leaf):
    return leaf in leaves(t)


AGG = {"all", "any", "alltrue", "sometrue", "max", "min", "amax", "amin", "nanmax", "nanmin", "mean", "median", "sum", "abs", "absolute", "fabs", "count_nonzero", "bool", "logical_not", "asarray", "array", "float", "nanmean", "prod", "isfinite"}


def heads(t, out):
    """the nodes a verdict is a simple comparison/aggregation of"""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            for x in t:
                heads(x, out)
        return
    if num(t) is not None or t.op in ("c", "opt", "nrows", "sym"):
        return
    if t.op in ("not", "and", "or", "list"):
        for x in t.a:
            heads(x, out)
        return
    if t.op == "cmp":
        heads(t.a[1], out)
        heads(t.a[2], out)
        return
    if t.op == "un":
        heads(t.a[1], out)
        return
    if t.op == "bin" and t.a[0] in ("-", "+") and (simple(t.a[1]) or simple(t.a[2])):
        heads(t.a[1], out)
        heads(t.a[2], out)
        return
    if t.op == "bin" and t.a[0] in ("&", "|"):
        heads(t.a[1], out)
        heads(t.a[2], out)
        return
    if t.op == "call" and t.a[0].split(".")[-1] in AGG:
        for k, v in t.a[1]:
            if k not in ("axis", "keepdims", "dtype"):
                heads(v, out)
        return
    if t.op in ("item", "part") and t.a[0].op in ("cmp", "call") and t.a[0].op == "cmp":
        heads(t.a[0], out)
        return
    if t not in out:
        out.append(t)


def simple(t):
    return isinstance(t, Term) and (num(t) is not None or t.op == "opt")


def C19(ctx):
    """Each diagnostic is interpreted once per chain and once for several chains together, with the threshold and windows as opaque symbols (and left at their defaults). The several-chain
    result is compared, for every assignment of pass/fail to the individual verdict terms, with their conjunction; its entries must be the tested names and each entry the very verdict term
    the individual call returns, so a setting dropped, swapped or replaced shows as a differing leaf. The single-chain Gelman-Rubin verdict is decomposed into its comparison and aggregation
    over the per-parameter ratio and evaluated on representative ratios with at most one parameter out of bounds."""
    nmax = 4 if ctx.tier == "thorough" else 3

    def settings(W, meth, how):
        if how == "symbols":
            return {k: SV(mk("opt", "arg", k), "scalar", nd=0) for k in SETTINGS[meth]}
        if how == "numbers":
            return {k: v * 1.25 for k, v in SETTINGS[meth].items()}
        return {}

    def verdicts(W, meth, chains, kw):
        out = []
        for ch in chains:
            r = W.call(W.di, meth, ch, **kw)
            out.append(r)
        return out

    def setting_atoms(W, before):
        return [t for t in W.I.atoms if t not in before]

    def scen(meth, n, how, form, assign):
        def go(W):
            chains = [W.chain(f"X{i}", cols=("A", "B", "C"), walkers=2 + i) for i in range(n)]
            W.ch = chains
            W.cc = W.consumer(*chains, W.chain("other", cols=("A",), walkers=7)) if form != "all" else W.consumer(*chains)
            W.di = W.attr(W.cc, "diagnostic")
            kw = settings(W, meth, how)
            W.mark()
            before = set(W.I.atoms)
            single = verdicts(W, meth, chains, kw)
            vs = [W.attr(r, "passed") for r in single]
            W.dec = []  # per chain: atoms the verdict hangs on
            cl = Classes(W)
            for v, ok in zip(vs, assign):
                if isinstance(v, SV):
                    t, neg = norm_atom(v.term)
                    W.I.atoms[t] = ok != neg
                    cl.leaf[t] = ok != neg
            if any(isinstance(v, bool) for v in vs):
                # decided inside the call: the conditions met there are the verdict's
                for i, ok in enumerate(assign):
                    own = [t for t in W.I.atoms if t not in before and any(x.op == "col" and x.a[0] == f"X{i}" for x in subterms(t))]
                    W.dec.append(own)
                    if not ok:
                        for t in own:
                            W.I.atoms[t] = not W.I.atoms[t]
                single = verdicts(W, meth, chains, kw)
            W.single = single
            W.known = dict(W.I.atoms)
            names = [f"X{i}" for i in range(n)]
            a = {"all": None, "names": VList(list(names)), "objects": VList(list(chains)), "mixed": VList([c if i % 2 else names[i] for i, c in enumerate(chains)]), "reversed": VList(names[::-1]),
                 "one name": names[0], "one object": chains[0], "list of one": VList(names[:1])}[form]
            W.tested = {"reversed": names[::-1], "one name": names[:1], "one object": names[:1], "list of one": names[:1]}.get(form, names)
            W.r = W.call(W.di, meth, **({} if a is None else {"chains": a}), **kw)
            W.cl = cl
            try:
                W.truth_of = W.I.truth(W.r)
            except PyExc as e:
                W.truth_of = e
        return go

    def judge(meth, how, form):
        def go(run, s):
            W = run.W
            if run.exc is not None:
                s.undecided(f"{run.name}: ends in {run.exc.cname} at {run.exc.where}")
                return
            what = f"{meth} on {form} with {how}"
            res = W.attr(W.r, "results")
            keys = list(res.keys()) if isinstance(res, VDict) else None
            if keys is None:
                s.undecided(f"{what}: results is {type(res).__name__}")
                return
            ind = {}
            for ch, r in zip(W.ch, W.single):
                nm = ch.label
                ind[nm] = outcome(W, W.attr(r, "passed"), W.cl)
                rr = W.attr(r, "results")
                if isinstance(rr, VDict):
                    s.check(rr.keys() == [nm], "one entry per tested chain", f"{meth} single entries", f"{meth} on chain {nm!r} alone has entries for {rr.keys()}")
                    if rr.keys() == [nm]:
                        e = outcome(W, rr.get(nm), W.cl)
                        if e is None or ind[nm] is None:
                            s.undecided(f"{what}: own entry not evaluated")
                        else:
                            s.check(e == ind[nm], "entry is the chain's verdict", f"{meth} single verdict", f"{meth} on {nm!r}: the entry says {e} and the result {ind[nm]}")
            s.check(sorted(map(str, keys)) == sorted(W.tested), "one entry per tested chain", f"{meth} {form} entries", f"{what}: chains tested {W.tested}, entries {keys}", W.r and None)
            passed = W.attr(W.r, "passed")
            got = outcome(W, passed, W.cl)
            want = None if any(ind[n] is None for n in W.tested) else all(ind[n] for n in W.tested)
            # settings
            changed = False
            fresh = [t for t in W.I.atoms if t not in W.known]
            for t in fresh:
                best = min((diff(t, k) for k in W.known if k.op == t.op), key=len, default=None)
                if best and all(isinstance(x, Term) and x.op in ("opt", "c") for x, _ in best) and len({x for x in subterms(t) if isinstance(x, Term) and x.op == "col"}) > 0:
                    changed = True
                    s.bad(f"{meth} settings", f"{what}: a verdict is taken with {show(best[0][0])} where the chain alone is judged with {show(best[0][1])}", None)
            for n in W.tested:
                if n not in keys:
                    continue
                v = res.get(n)
                own = W.attr(W.single[[c.label for c in W.ch].index(n)], "passed")
                if isinstance(v, SV) and isinstance(own, SV):
                    s.ob("verdict term compared with the chain's own")
                    a, _ = norm_atom(v.term)
                    b, _ = norm_atom(own.term)
                    if a is not b:
                        if a in W.cl.leaf and b in W.cl.leaf:
                            s.bad(f"{meth} entry of another chain", f"{what}: the entry of {n!r} holds another chain's verdict")
                            continue
                        d = diff(a, b)
                        if d and all(isinstance(x, Term) and x.op in ("opt", "c") for x, _ in d):
                            changed = True
                            s.bad(f"{meth} settings", f"{what}: chain {n!r} is judged with {show(d[0][0])} where alone it is judged with {show(d[0][1])}")
                        elif d and all(isinstance(x, Term) and isinstance(y, Term) and x.op == y.op == "col" for x, y in d):
                            s.bad(f"{meth} entry of another chain", f"{what}: the entry of {n!r} is computed from {show(d[0][0])}")
                        else:
                            e = outcome(W, v, W.cl)
                            if e is None or ind[n] is None:
                                s.undecided(f"{what}: verdict of {n!r} has another form in a joint run")
                            else:
                                s.check(e == ind[n], "entry is the chain's verdict", f"{meth} joint entry", f"{what}: the entry of {n!r} is {e} where the chain alone gives {ind[n]}")
                else:
                    e = outcome(W, v, W.cl)
                    if e is None or ind[n] is None:
                        s.undecided(f"{what}: entry of {n!r} not evaluated")
                    elif not changed:
                        s.check(e == ind[n], "entry is the chain's verdict", f"{meth} joint entry", f"{what}: with individual verdicts {ind} the entry of {n!r} is {e}")
            if changed:
                return
            if got is None or want is None:
                s.undecided(f"{what}: overall verdict not evaluated ({show(passed.term, 2)[:120] if isinstance(passed, SV) else passed})")
            else:
                s.check(got == want, "overall verdict is the conjunction", f"{meth} conjunction", f"{what}: individual verdicts {ind}, overall {got}")
                if isinstance(W.truth_of, bool):
                    s.check(W.truth_of == got, "truth value of the result", f"{meth} bool", f"bool(result) is {W.truth_of} for passed = {got}")
        return go

    def leaves_used(meth, how):
        """settings reach the single verdict"""
        def go(W):
            ch = W.chain("X0", cols=("A", "B", "C"), walkers=2, log_posterior=None)
            W.cc = W.consumer(ch)
            W.di = W.attr(W.cc, "diagnostic")
            W.mark()
            W.before = set(W.I.atoms)
            W.r = W.call(W.di, meth, ch, **settings(W, meth, how))

        def j(run, s):
            W = run.W
            if run.exc is not None:
                s.undecided(f"{run.name}: {run.exc.cname} at {run.exc.where}")
                return
            v = W.attr(W.r, "passed")
            ts = [v.term] if isinstance(v, SV) else [t for t in W.I.atoms if t not in W.before]
            ls = set()
            for t in ts:
                ls |= set(leaves(t))
                ls |= set(subterms(t))
            if any(x.op == "unk" for x in ls if isinstance(x, Term)):
                s.undecided(f"{run.name}: verdict contains an unmodelled value")
                return
            for k in SETTINGS[meth]:
                if how == "symbols":
                    s.check(mk("opt", "arg", k) in ls, "setting reaches the verdict", f"{meth} ignores {k}", f"the {meth} verdict does not depend on {k}: {show(ts[0], 2)[:160] if ts else v}")
            cols = {x.a[1] for x in ls if isinstance(x, Term) and x.op == "col" and x.a[0] == "X0"}
            s.check({"A", "B", "C"} <= cols, "verdict covers every parameter", f"{meth} parameters", f"the {meth} verdict of a chain with parameters A, B, C depends on {sorted(cols)}")
            s.check("log_posterior" not in cols, "verdict covers parameters only", f"{meth} posterior column", f"the {meth} verdict depends on the log posterior column")
        ctx.queue(f"{meth} single {how}", go, j)

    THR = 0.05
    RATIOS = [(1.0, 1.0, 1.0), (1.2, 1.0, 1.0), (1.0, 1.2, 1.0), (1.0, 1.0, 1.2), (0.8, 1.0, 1.0), (1.0, 0.8, 1.0), (1.0, 1.0, 0.8), (0.8, 1.2, 1.0), (1.2, 0.8, 1.0), (1.2, 1.2, 1.2), (1.04, 0.96, 1.0), (1.03, 1.03, 1.03), (1.06, 1.0, 1.0), (0.94, 1.0, 1.0)]

    def grsingle(W):
        ch = W.chain("X0", cols=("A", "B", "C"), walkers=2)
        W.cc = W.consumer(ch)
        W.di = W.attr(W.cc, "diagnostic")
        W.thr = mk("opt", "arg", "threshold")
        W.mark()
        before = set(W.I.atoms)
        W.r = W.call(W.di, "gelman_rubin", ch, threshold=SV(W.thr, "scalar", nd=0))
        W.new = [t for t in W.I.atoms if t not in before and has(t, W.thr)]
        W.outs = []
        v = W.attr(W.r, "passed")
        if isinstance(v, bool) and W.new:
            hs = []
            for t in W.new:
                heads(t, hs)
            W.hs = hs
            base = {k: v for k, v in W.I.atoms.items() if not has(k, W.thr)}
            for vals in product((1.0, 1.2, 0.8), repeat=min(len(hs), 4)):
                cl = Classes(W)
                cl.leaf[W.thr] = THR
                for h, x in zip(hs, vals):
                    if has(h, W.thr) and h.op in ("elem", "item"):
                        # one entry of the comparison
                        sub = []
                        heads(h.a[0], sub)
                        sub = [q for q in sub if not has(q, W.thr)]
                        if len(sub) == 1:
                            c2 = Classes(W)
                            c2.leaf[sub[0]], c2.leaf[W.thr] = x, THR
                            try:
                                x = c2.ev(h.a[0])
                            except No:
                                continue
                        W.I.classes = cl
                    cl.leaf[h] = x
                W.I.atoms = dict(base)
                r = W.call(W.di, "gelman_rubin", ch, threshold=SV(W.thr, "scalar", nd=0))
                W.outs.append((vals, W.attr(r, "passed"), len(cl.unknown)))
        W.I.classes = None

    def jgr(run, s):
        W = run.W
        if run.exc is not None:
            s.undecided(f"{run.name}: {run.exc.cname} at {run.exc.where}")
            return
        v = W.attr(W.r, "passed")
        if isinstance(v, bool):
            if not W.outs:
                s.undecided("Gelman-Rubin verdict is constant")
            tab = {vals: r for vals, r, _ in W.outs}
            k = len(next(iter(tab)))
            dep = [i for i in range(k) if any(tab[v] != tab[v[:i] + (x,) + v[i + 1 :]] for v in tab for x in (1.0, 1.2, 0.8))]
            # a loop over an unknown number of ratios is followed for its first two entries
            free = [i for i in range(k) if i not in dep] if len(dep) >= 2 else []
            for vals, r, unk in W.outs:
                if any(vals[i] != 1.0 for i in free):
                    continue
                want = all(abs(x - 1) < THR for x in vals)
                if unk or not isinstance(r, bool):
                    s.undecided("Gelman-Rubin verdict: a condition was not evaluated")
                    return
                s.check(r == want, "ratio vector judged", "gelman_rubin every parameter", f"with ratios {vals} and threshold {THR} the Gelman-Rubin verdict is {r}")
            return
        if not isinstance(v, SV):
            s.undecided(f"verdict is {type(v).__name__}")
            return
        hs = []
        heads(v.term, hs)
        hs = [h for h in hs if not has(h, W.thr)]
        if len(hs) != 1:
            s.undecided(f"Gelman-Rubin verdict hangs on {len(hs)} quantities")
            return
        from classes import Arr
        for vals in RATIOS:
            cl = Classes(W)
            cl.leaf[hs[0]] = Arr(vals)
            cl.leaf[W.thr] = THR
            try:
                got = cl.ev(v.term)
            except No as e:
                s.undecided(f"Gelman-Rubin verdict not evaluated on ratios: {e}")
                return
            want = all(abs(x - 1) < THR for x in vals)
            if not isinstance(got, bool):
                s.undecided("Gelman-Rubin verdict is not a single truth value")
                return
            s.check(got == want, "ratio vector judged", "gelman_rubin every parameter", f"with per-parameter ratios {vals} and threshold {THR} the Gelman-Rubin verdict is {got}")
        W.I.classes = None

    ctx.queue("gelman_rubin ratios", grsingle, jgr)
    for meth in SETTINGS:
        leaves_used(meth, "symbols")
        for how in ("symbols", "defaults", "numbers"):
            for form in ("all", "names", "objects", "mixed", "reversed", "one name", "one object", "list of one"):
                if how != "symbols" and form not in ("all", "names"):
                    continue
                for n in range(1, nmax + 1):
                    if form not in ("all", "names", "objects") and n != 3:
                        continue
                    asg = list(product((True, False), repeat=n))
                    if how != "symbols" or form in ("one name", "one object", "list of one", "mixed"):
                        asg = [asg[0], asg[-1]] + [a for a in asg if sum(a) == n - 1]
                    for a in dict.fromkeys(asg):
                        ctx.queue(f"{meth} {form} x{n} {how} {''.join('T' if x else 'F' for x in a)}", scen(meth, n, how, form, a), judge(meth, how, form))
    ctx.flush()


RULES = {"C19": C19}
