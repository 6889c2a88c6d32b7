"""LaTeX tables (C21)."""
from __future__ import annotations

import re
from itertools import combinations

from common import *  # noqa: F403
from rules_misc import message
from tables import Table, parts
from terms import Term, leaves, mk, num, show, subterms
from values import SV, ExtObj, Inst, Native, PyExc, VDict, VList, to_term

NASTY = ["50%", "100 % & more", "%s", "%d", "%(x)s", "a%%b", "{0}", "{x}", "{", "}", "{}", "{{y}}", "\\alpha", "$\\Omega_m$", "a & b", "x \\\\ y", "#1 ~ ^_", "\\hline", "\\1\\g<0>", "$x", "${x}", "\u00b5 \u2014 \u03a9", "it's \"q\"", ""]
TOK = "QQTOKENQQ"


def pieces(v):
    """adjacent text joined, blanks collapsed; abstract parts kept"""
    out = []
    for p in parts(v):
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return [re.sub(r"[ \t]+", " ", p) if isinstance(p, str) else p for p in out]


def itempath(t):
    """(matrix, index list) of nested constant indexing"""
    ix = []
    while isinstance(t, Term) and t.op in ("item", "elem"):
        k = t.a[1]
        if isinstance(k, Term):
            k = k.a[0] if k.op == "c" else [num(x) for x in (k.a[0] if isinstance(k.a[0], tuple) else k.a)] if k.op == "list" else num(k)
        if isinstance(k, tuple):
            k = list(k)
        ix = (k if isinstance(k, list) else [k]) + ix
        t = t.a[0]
    return t, ix


def strip_fmt(t):
    while isinstance(t, Term) and (t.op == "fmt" or t.op == "call" and t.a[0].split(".")[-1] in ("float", "round") and t.a[1]):
        t = t.a[1] if t.op == "fmt" else t.a[1][0][1]
    return t


def C21(ctx):
    """Every table generator is interpreted for each combination of chains, parameters and switches; the result is an abstract string whose literal parts are known, so the declared column
    specification and the cells of each row are counted on it, row and column heads are compared with the requested chains and parameters, and each cell's value term is traced to the chain
    and parameter it belongs to. User texts are then replaced by texts with every character special to Python's formatting or to LaTeX: the result must be the earlier one with the text
    substituted. For the parameter table the write calls on the opened file are compared with the returned string."""
    full = ctx.tier == "thorough"

    def stub(W):
        def f(a, kw):
            ch = a[0] if a else kw.get("chain")
            col = a[1] if len(a) > 1 else kw.get("column")
            lab = getattr(ch, "label", None) or W.attr(ch, "name")
            return W.I.instantiate(W.cls("analysis.Bound"), [], {k: SV(mk("opt", f"bound:{lab}:{col}", k), "scalar", nd=0) for k in ("lower", "center", "upper")})
        W.cls("analysis.Analysis").ns["get_parameter_summary"] = Native("get_parameter_summary", f)

    def shape(W, T, what, s, ncol=None):
        """column specification and row lengths"""
        if not T.ok:
            s.bad(f"{what.split(' ')[0]} not a tabular", f"{what}: no well-formed tabular environment in the result")
            return False
        if T.spec is None:
            s.undecided(f"{what}: column specification is not constant")
            return False
        for env in ("table", "tabular"):
            s.check(T.text.count(f"\\begin{{{env}}}") == T.text.count(f"\\end{{{env}}}") == 1, "environments closed", f"{what.split(' ')[0]} environment", f"{what}: {env} environment is not opened and closed once")
        ok = True
        for i, r in enumerate(T.rows):
            s.ob("row length compared with the column specification")
            if len(r) != T.spec:
                ok = False
                if any(isinstance(x, Term) and any(y.op == "elem" for y in subterms(x)) for cell in r for x in T.of(cell)):
                    s.undecided(f"{what}: row {i} holds generic elements of a sequence of unknown length")
                    continue
                s.bad(f"{what.split(' ')[0]} cells", f"{what}: {'the header' if i == 0 else 'row ' + str(i)} has {len(r)} cells where {T.specstr!r} declares {T.spec}")
        if ncol is not None:
            s.check(T.spec == ncol, "column count", f"{what.split(' ')[0]} columns", f"{what}: {T.spec} columns are declared for {ncol - 1} requested")
        if T.tail:
            s.bad(f"{what.split(' ')[0]} tail", f"{what}: text {T.plain(T.tail)[:60]!r} after the last row")
        return ok

    # ------------------------------------------------------------------ parameter table
    LAY = [(("A",),), (("A", "B"),), (("A", "B"), ("A", "B")), (("A", "B"), ("B", "A")), (("A", "B"), ("B", "C")), (("B",), ("A",), ("C", "A")), (("A", "B", "C"),) * 3, (("A", "B", "C", "D"), ("D",))]

    def latex(cols, kw, cfg, stubbed=True, sel=None, opts=None):
        def go(W):
            W.ch = [W.chain(f"chain {'zyxw'[i]}", label=f"X{i + 1}", cols=cs, **(opts or {})) for i, cs in enumerate(cols)]
            c = {"labels": VDict([("A", "lab A"), ("C", "lab C")])}
            c.update(cfg)
            W.cc = W.consumer(*W.ch, config=W.config(**c))
            if stubbed:
                stub(W)
            k = dict(kw)
            W.sel = W.ch if sel is None else [W.ch[i] for i in sel]
            if sel is not None:
                k["chains"] = VList([W.attr(x, "name") if i % 2 else x for i, x in enumerate(W.sel)])
            W.mark()
            W.ret = W.call(W.attr(W.cc, "analysis"), "get_latex_table", **k)
        return go

    def jlatex(cols, kw, cfg, stubbed=True):
        def go(run, s):
            W = run.W
            what = f"get_latex_table {run.name}"
            if run.exc is not None:
                if run.base and stubbed and not run.exc.implicit:
                    s.bad("get_latex_table refused", f"{what}: {run.exc.cname}: {message(run.exc)[:100]}", run.exc.where)
                else:
                    s.undecided(f"{what}: {run.exc.cname} at {run.exc.where}")
                return
            T = Table(W.ret)
            want = []
            for ch in W.sel:
                for p in cols[int(ch.label[1:]) - 1]:
                    if p not in want:
                        want.append(p)
            if "columns" in kw:
                want = list(kw["columns"].items)
            b = cfg.get("blind", False)
            blind = set(want) if b is True else set(b.items) if isinstance(b, VList) else {b} if isinstance(b, str) else set()
            want = [p for p in want if p not in blind]
            tr = kw.get("transpose", False)
            rows, heads = (want, W.sel) if tr else (W.sel, want)
            if not shape(W, T, what, s, len(heads) + 1):
                return
            lab = {"A": "lab A", "C": "lab C"}

            def txt(x):
                return lab.get(x, x) if isinstance(x, str) else W.attr(x, "name")
            got = [T.plain(x) for x in T.rows[0][1:]]
            s.check(got == [txt(x) for x in heads], "column heads", "get_latex_table heads", f"{what}: column heads {got}, requested {[txt(x) for x in heads]}")
            got = [T.plain(r[0]) for r in T.rows[1:]]
            s.check(got == [txt(x) for x in rows], "row heads", "get_latex_table row heads", f"{what}: rows {got}, requested {[txt(x) for x in rows]}")
            if not stubbed or len(T.rows) - 1 != len(rows):
                return
            for i, r in enumerate(T.rows[1:]):
                for j, cell in enumerate(r[1:]):
                    x, y = (heads[j], rows[i]) if tr else (rows[i], heads[j])
                    own = set()
                    for t in T.of(cell):
                        own |= {q.a[0] for q in leaves(t) if isinstance(q, Term) and q.op == "opt" and str(q.a[0]).startswith("bound:")} if isinstance(t, Term) else set()
                    has = y in cols[int(x.label[1:]) - 1]
                    s.ob("cell traced to its chain and parameter")
                    if has:
                        if own != {f"bound:{x.label}:{y}"}:
                            s.bad("get_latex_table cell", f"{what}: the cell of {W.attr(x, 'name')!r} and {y!r} shows {sorted(own) or T.plain(cell)!r}")
                    else:
                        fill = kw.get("blank_fill", "--")
                        s.check(not own and T.plain(cell) == fill, "blank cell", "get_latex_table blank", f"{what}: the cell of {W.attr(x, 'name')!r}, which lacks {y!r}, reads {T.plain(cell)[:50]!r} instead of {fill!r}")
        return go

    for cols in LAY:
        for tr in (False, True):
            for kw, cfg in (({}, {}), ({"hlines": False}, {}), ({"blank_fill": "n/a"}, {}), ({}, {"blind": VList(["A"])}), ({"columns": VList(["B", "A"])}, {}), ({"columns": VList(["A"]), "hlines": False}, {})):
                if kw.get("columns") is not None and any(p not in {q for cs in cols for q in cs} for p in kw["columns"].items):
                    continue
                k = {**kw, "transpose": tr}
                ctx.queue(f"{[len(c) for c in cols]}{'+'.join(map(''.join, cols))} transpose={tr} {kw and list(kw)} {cfg and list(cfg)}", latex(cols, k, cfg), jlatex(cols, k, cfg))
            if len(cols) > 1:
                for sel in ((1, 0), (1,)):
                    k = {"transpose": tr}
                    ctx.queue(f"{'+'.join(map(''.join, cols))} transpose={tr} chains {sel}", latex(cols, k, {}, sel=sel), jlatex(cols, k, {}))
    ctx.flush()
    for cols in LAY[3:6] if full else LAY[4:5]:
        for tr in (False, True):
            for o in ({}, {"multimodal": True}):
                k = {"transpose": tr}
                ctx.explore(f"{'+'.join(map(''.join, cols))} transpose={tr} own summaries {o and list(o)}", latex(cols, k, {}, stubbed=False, opts=o), jlatex(cols, k, {}, stubbed=False), depth=1, limit=40 if not full else 400)

    # ------------------------------------------------------------------ matrix tables
    def matrix(which, cols, sub, form):
        def go(W):
            W.ch = [W.chain("chain z", label="X1", cols=cols)]
            W.cc = W.consumer(*W.ch, config=W.config(labels=VDict([("A", "a rather long label"), ("C", "c")])))
            other = W.chain("other", label="X2", cols=("A", "B"))
            if form != "none":
                W.call(W.cc, "add_chain", other)
            k = {} if sub is None else {"columns": VList(list(sub))}
            W.sub = list(sub or cols)
            W.own_m = {m: W.call(W.ch[0], f"get_{m}", **({} if sub is None else {"columns": VList(list(sub))})) for m in ("covariance", "correlation")}
            a = {"none": None, "name": "chain z", "object": W.ch[0]}[form]
            W.mark()
            W.ret = W.call(W.attr(W.cc, "analysis"), f"get_{which}_table", **({"chain": a}), **k)
        return go

    def jmatrix(which):
        def go(run, s):
            W = run.W
            what = f"get_{which}_table {run.name}"
            if run.exc is not None:
                s.undecided(f"{what}: {run.exc.cname} at {run.exc.where}")
                return
            T = Table(W.ret)
            if not shape(W, T, what, s, len(W.sub) + 1):
                return
            lab = {"A": "a rather long label", "C": "c"}
            names = [lab.get(x, x) for x in W.sub]
            s.check([T.plain(x) for x in T.rows[0][1:]] == names, "column heads", f"{which} heads", f"{what}: column heads {[T.plain(x) for x in T.rows[0][1:]]}, parameters {names}")
            s.check([T.plain(r[0]) for r in T.rows[1:]] == names, "row heads", f"{which} row heads", f"{what}: rows {[T.plain(r[0]) for r in T.rows[1:]]}, parameters {names}")
            ms = {m: to_term(W.attr(v, "matrix")) for m, v in W.own_m.items()}
            for i, r in enumerate(T.rows[1:]):
                for j, cell in enumerate(r[1:]):
                    ts = T.of(cell)
                    if len(ts) != 1:
                        s.bad(f"{which} cell", f"{what}: the cell of row {i} and column {j} reads {T.plain(cell)[:40]!r}")
                        continue
                    m, ix = itempath(strip_fmt(ts[0]))
                    s.ob("matrix cell traced")
                    if m is ms[which] and len(ix) == 2 and all(isinstance(q, int) for q in ix):
                        if ix not in ([i, j], [j, i]):
                            s.bad(f"{which} cell", f"{what}: the cell of row {i} and column {j} shows entry {ix}")
                    elif any(m is v for k, v in ms.items() if k != which):
                        s.bad(f"{which} matrix", f"{what}: the table shows the other matrix")
                    else:
                        s.undecided(f"{what}: cell {show(ts[0], 3)[:100]}")
        return go

    for which in ("covariance", "correlation"):
        for cols, sub in ((("A",), None), (("A", "B"), None), (("A", "B", "C"), None), (("A", "B", "C", "D"), None), (("A", "B", "C"), ("C", "A")), (("A", "B", "C"), ("B",)), (("C", "B", "A"), None)):
            for form in ("none", "name", "object"):
                ctx.queue(f"{''.join(cols)} columns={sub} chain={form}", matrix(which, cols, sub, form), jmatrix(which))
    ctx.flush()

    # ------------------------------------------------------------------ comparison table
    def comp(n, on, sort, kw, lack=()):
        def go(W):
            W.ch = []
            for i in range(n):
                o = {"num_free_params": 2 + i, "num_eff_data_points": 40.0 + i}
                if i in lack:
                    o["num_free_params"] = None
                W.ch.append(W.chain(f"chain {'zyxw'[i]}", label=f"X{i + 1}", **o))
            W.cc = W.consumer(*W.ch)
            cmp_ = W.attr(W.cc, "comparison")
            W.val = {c: W.call(cmp_, c) for c in on}
            k = dict(kw)
            k.update({c: c in on for c in ("aic", "bic", "dic")})
            if sort:
                k["sort"] = sort
            W.mark()
            W.ret = W.call(cmp_, "comparison_table", **k)
        return go

    def jcomp(n, on, sort, kw, lack=()):
        def go(run, s):
            W = run.W
            what = f"comparison_table {run.name}"
            if run.exc is not None:
                if run.base and not run.exc.implicit:
                    s.bad("comparison_table refused", f"{what}: {run.exc.cname}: {message(run.exc)[:100]}", run.exc.where)
                else:
                    s.undecided(f"{what}: {run.exc.cname} at {run.exc.where}")
                return
            T = Table(W.ret)
            if not shape(W, T, what, s, len(on) + 1):
                return
            heads = [T.plain(x).lower() for x in T.rows[0][1:]]
            if sorted(heads) != sorted(on):
                s.bad("comparison_table heads", f"{what}: column heads {heads}, requested {list(on)}")
                return
            names = []
            for nm in W.val[on[0]].keys():
                names.append(nm)
            for c in on[1:]:
                names += [x for x in W.val[c].keys() if x not in names]
            s.check(len(T.rows) - 1 == len(names), "one row per chain", "comparison_table rows", f"{what}: {len(T.rows) - 1} rows for {len(names)} chains")
            seen = []
            for r in T.rows[1:]:
                lt = T.of(r[0])
                row = None
                if not lt:
                    row = T.plain(r[0])
                    if row not in names:
                        s.bad("comparison_table row head", f"{what}: row head {row!r} is not one of {names}")
                        continue
                    seen.append(row)
                    key = None
                else:
                    m, ix = itempath(strip_fmt(lt[0]))
                    if m.op != "sorted" or m.a[0].op != "list" or len(ix) != 1:
                        s.undecided(f"{what}: row head {show(lt[0], 3)[:80]}")
                        continue
                    order = [x.a[0] if isinstance(x, Term) and x.op == "c" else x for x in m.a[0].a[0]]
                    key, asc, pos = m.a[1], m.a[2], ix[0]
                    seen.append(("sorted", pos))
                    k0 = key.a[0][0] if key.op == "list" else key
                    wantk = [W.val[sort].get(x) if x in W.val[sort].keys() else None for x in order] if sort in W.val else None
                    if wantk is not None and k0.op == "list":
                        kk = list(k0.a[0])
                        if len(kk) == len(wantk) and all(w is None or a is to_term(w) for a, w in zip(kk, wantk)):
                            s.ob("rows sorted by the requested criterion")
                        else:
                            other = [c for c in on if c != sort and all(x in W.val[c].keys() and a is to_term(W.val[c].get(x)) for a, x in zip(kk, order))]
                            if other:
                                s.bad("comparison_table sort", f"{what}: rows are sorted by {other[0]}")
                            else:
                                s.undecided(f"{what}: sort key {show(k0, 3)[:80]}")
                    a = asc.a[0] if isinstance(asc, Term) and asc.op == "c" else asc
                    if isinstance(a, bool):
                        s.check(a == (not kw.get("descending", True)), "sort direction", "comparison_table direction", f"{what}: rows are sorted {'ascending' if a else 'descending'}")
                for h, cell in zip(heads, r[1:]):
                    ts = T.of(cell)
                    s.ob("comparison cell traced")
                    if row is not None:
                        w = W.val[h].get(row) if row in W.val[h].keys() else None
                        if w is None:
                            continue
                        if not ts or strip_fmt(ts[0]) is not to_term(w):
                            others = [(c, x) for c in on for x in names if x in W.val[c].keys() and ts and strip_fmt(ts[0]) is to_term(W.val[c].get(x))]
                            if others:
                                s.bad("comparison_table cell", f"{what}: the {h} of {row!r} shows the {others[0][0]} of {others[0][1]!r}")
                            elif isinstance(w, SV):
                                s.undecided(f"{what}: cell {show(ts[0], 3)[:80] if ts else T.plain(cell)}")
                        continue
                    if len(ts) != 1:
                        s.undecided(f"{what}: cell {T.plain(cell)[:40]!r}")
                        continue
                    m, ix = itempath(strip_fmt(ts[0]))
                    if m.op == "list" and len(ix) == 1 or m.op == "sorted" and m.a[1:] == (key, asc) and len(ix) == 1:
                        vals = list(m.a[0].a[0]) if m.op == "sorted" and m.a[0].op == "list" else list(m.a[0]) if m.op == "list" else None
                        if vals is None or len(vals) != len(order):
                            s.undecided(f"{what}: cell {show(ts[0], 3)[:80]}")
                            continue
                        if m.op == "list":
                            s.bad("comparison_table cell", f"{what}: rows are named in sorted order but show values in registration order")
                            continue
                        if ix[0] != pos:
                            s.bad("comparison_table cell", f"{what}: row {pos} shows the {h} of row {ix[0]}")
                        for x, v in zip(order, vals):
                            if x in W.val[h].keys() and v is not to_term(W.val[h].get(x)):
                                others = [(c, y) for c in on for y in names if y in W.val[c].keys() and v is to_term(W.val[c].get(y))]
                                if others:
                                    s.bad("comparison_table cell", f"{what}: the {h} of {x!r} shows the {others[0][0]} of {others[0][1]!r}")
                                    break
                                s.undecided(f"{what}: value {show(v, 2)[:60]}")
                    elif m.op == "sorted" and m.a[1:] != (key, asc):
                        s.bad("comparison_table cell", f"{what}: names and values of a row are sorted differently")
                    else:
                        s.undecided(f"{what}: cell {show(ts[0], 3)[:80]}")
            s.check(len(set(seen)) == len(seen), "distinct rows", "comparison_table repeated row", f"{what}: rows {seen}")
        return go

    crit = ("aic", "bic", "dic")
    for n in (1, 2, 3):
        for k in (1, 2, 3):
            for on in combinations(crit, k):
                for sort in on:
                    for kw in ({}, {"hlines": False}, {"descending": False}):
                        for lack in ((), (n - 1,)) if n > 1 else ((),):
                            ctx.queue(f"{n} chains {'+'.join(on)} sort={sort} {kw} lacking {lack}", comp(n, on, sort, kw, lack), jcomp(n, on, sort, kw, lack))
    ctx.flush()

    # ------------------------------------------------------------------ user texts
    def tables(W, where, text):
        """every generator with `text` at one place"""
        cap, lab = (text if where == "caption" else "CAP"), (text if where == "label" else "LAB")
        names = [text if where == "chain name" else "chain z", "chain y"]
        cols = ["A", "B"]
        labels = VDict([("A", text if where == "parameter label" else "la"), ("B", "lb")])
        if where == "column name":
            cols = [text, "B"]
            labels = VDict([("B", "lb")])
        ch = [W.chain(names[i], label=f"X{i + 1}", cols=cols if i == 0 else ["B"], num_free_params=2, num_eff_data_points=30.0) for i in range(2)]
        cc = W.consumer(*ch, config=W.config(labels=labels))
        stub(W)
        ana, cmp_ = W.attr(cc, "analysis"), W.attr(cc, "comparison")
        fill = text if where == "blank" else "--"
        fs = {
            "get_latex_table": lambda: W.call(ana, "get_latex_table", caption=cap, label=lab, blank_fill=fill),
            "get_latex_table transposed": lambda: W.call(ana, "get_latex_table", caption=cap, label=lab, blank_fill=fill, transpose=True),
            "get_covariance_table": lambda: W.call(ana, "get_covariance_table", ch[0], caption=cap, label=lab),
            "get_correlation_table": lambda: W.call(ana, "get_correlation_table", ch[0], caption=cap, label=lab),
            "comparison_table": lambda: W.call(cmp_, "comparison_table", caption=cap, label=lab),
        }
        out = {}
        for k, f in fs.items():
            if where == "chain name" and k.endswith(("covariance_table", "correlation_table")) or where == "blank" and "latex" not in k or where in ("parameter label", "column name") and k == "comparison_table":
                continue
            try:
                out[k] = f()
            except PyExc as e:
                out[k] = e
        return out

    def literal(where, text):
        def go(W):
            W.mark()
            W.ref = tables(W, where, TOK)
            W.out = tables(W, where, text)

        def j(run, s):
            W = run.W
            if run.exc is not None:
                s.undecided(f"{run.name}: {run.exc.cname} at {run.exc.where}")
                return
            for k, ref in W.ref.items():
                got = W.out[k]
                s.ob("table with a special text compared")
                if isinstance(ref, PyExc):
                    s.undecided(f"{k}: {ref.cname} at {ref.where}")
                    continue
                if isinstance(got, PyExc):
                    if "unk" in message(got):
                        s.undecided(f"{k}: {got.cname} at {got.where}")
                    else:
                        s.bad(f"text {k} {where}", f"{k} with {where} {text!r} raises {got.cname}: {message(got)[:100]}", got.where)
                    continue
                a, b = pieces(ref), pieces(got)

                def inner(ps):
                    out = []
                    for p in ps:
                        if isinstance(p, Term):
                            out += [x.a[0] for x in subterms(p) if isinstance(x, Term) and x.op == "c" and isinstance(x.a[0], str)]
                    return out
                if TOK in inner(a):
                    # the text is one of several abstract rows
                    s.check(text in inner(b), "text inside a sorted row", f"text {k} {where}", f"{k} with {where} {text!r} shows {[x for x in inner(b) if x not in inner(a)][:3]}")
                elif TOK not in "".join(p for p in a if isinstance(p, str)):
                    s.bad(f"text lost {k} {where}", f"{k} does not show the {where} it is given")
                    continue

                def flat_(ps, tok=None):
                    # positions of abstract parts kept, their content is traced elsewhere
                    txt = "".join(p if isinstance(p, str) else "\x01" for p in ps)
                    return re.sub(r"[ \t]+", " ", txt.replace(TOK, tok) if tok is not None else txt)
                if any(not isinstance(p, str) and text and text in show(p, 6) and TOK not in show(p, 6) for p in b if where not in ("column name", "chain name")):
                    s.undecided(f"{k}: the text is inside an abstract part")
                    continue
                x, y = flat_(a, text), flat_(b)
                if x != y:
                    # an escaping helper may legitimately keep the text elsewhere; a literal occurrence is what is promised
                    cnt = flat_(a).count(TOK)
                    squeezed = re.sub(r"[ \t]+", " ", text)
                    if squeezed and y.count(squeezed) < cnt or len(x) != len(y):
                        at = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                        s.bad(f"text {k} {where}", f"{k} with {where} {text!r}: reads {y[max(0, at - 15):at + 25]!r} where {x[max(0, at - 15):at + 25]!r} is expected")
        ctx.queue(f"{where} {text!r}", go, j)

    for where in ("caption", "label", "chain name", "parameter label", "column name", "blank"):
        for text in NASTY:
            if where in ("chain name", "column name") and not text:
                continue
            literal(where, text)
    ctx.flush()

    # ------------------------------------------------------------------ file
    def file(fn, kw):
        def go(W):
            ch = [W.chain(f"chain {'zy'[i]}", label=f"X{i + 1}") for i in range(2)]
            cc = W.consumer(*ch)
            stub(W)
            W.mark()
            W.fn = fn()
            W.ret = W.call(W.attr(cc, "analysis"), "get_latex_table", caption="50% {x}", **({} if W.fn is None else {"filename": W.fn}), **kw)

        def j(run, s):
            W = run.W
            if run.exc is not None:
                s.undecided(f"{run.name}: {run.exc.cname} at {run.exc.where}")
                return
            opens = [e for e in W.events("open")]
            writes = [e for e in W.events("ext") if e.name in ("write", "writelines") and e.obj.kind == "file"]
            if W.fn is None:
                s.check(not opens and not writes, "no file without a name", "file unasked", "get_latex_table opens a file although none was requested", opens[0].site if opens else None)
                return
            if len(opens) != 1:
                s.bad("file opened", f"get_latex_table with a file name opens {len(opens)} files", opens[0].site if opens else None)
                return
            o = opens[0]
            p = o.path
            ok = p == W.fn or p is W.fn or isinstance(p, ExtObj) and (W.fn in (p.meta.get("parts") or ()) or any(x is to_term(W.fn) for x in subterms(p.term) if isinstance(x, Term)))
            if isinstance(p, (SV,)):
                ok = any(x is to_term(W.fn) for x in subterms(p.term))
            s.check(ok, "the requested file", "file path", f"get_latex_table opens {p!r} for the requested {W.fn!r}", o.site)
            m = o.mode if isinstance(o.mode, str) else "w"
            s.check(m.startswith(("w", "x")) and "b" not in m, "file mode", "file mode", f"the table file is opened with mode {m!r}", o.site)
            text = []
            for e in writes:
                a = e.d["args"][0]
                if e.name == "writelines" and isinstance(a, VList):
                    for x in a.items:
                        text += parts(x)
                elif e.name == "writelines":
                    text += parts(a)
                else:
                    text += parts(a)

            def canon(ps):
                out = []
                for q in ps:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    elif q != "":
                        out.append(q)
                return out
            x, y = canon(text), canon(parts(W.ret))
            same = len(x) == len(y) and all(p == q if isinstance(p, str) else p is q for p, q in zip(x, y))
            if not same and any(isinstance(q, Term) and q.op in ("unk", "smeth", "mcall") for q in x):
                s.undecided("text written is not understood")
            else:
                s.check(same, "file is the returned text", "file content", "the text written differs from the text returned: " + next((f"{p!r} against {q!r}"[:160] for p, q in zip(x, y) if p != q and p is not q), f"{len(x)} against {len(y)} parts"), writes[0].site if writes else o.site)
        ctx.queue(f"file {fn()!r} {kw}", go, j)

    for kw in ({}, {"transpose": True}, {"hlines": False}):
        file(lambda: None, kw)
        file(lambda: "t.tex", kw)
        file(lambda: ExtObj("Path", "p", {}, term=mk("sym", "path", "p")), kw)
    ctx.flush()


RULES = {"C21": C21}
