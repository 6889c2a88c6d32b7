"""LaTeX tables as abstract strings: cell grid of a string term."""
from __future__ import annotations

import re

from terms import Term
from values import SV


def parts(v):
    """[str | Term] of an abstract string"""
    if isinstance(v, str):
        return [v]
    t = v.term if isinstance(v, SV) else v
    if isinstance(t, str):
        return [t]
    if isinstance(t, Term):
        if t.op == "cat":
            out = []
            for x in t.a[0]:
                out += parts(x)
            return out
        if t.op == "c" and isinstance(t.a[0], str):
            return [t.a[0]]
        return [t]
    return [t]


class Table:
    """spec: number of columns declared; rows: list of cells; a cell is a string in which <i> stands for term i"""

    def __init__(self, v):
        self.terms = []
        txt = ""
        for p in parts(v):
            if isinstance(p, str):
                txt += p.replace("\x01", "")
            else:
                txt += f"\x01{len(self.terms)}\x01"
                self.terms.append(p)
        self.text = txt
        m = re.search(r"\\begin\{tabular\}\{([^{}]*)\}(.*)\\end\{tabular\}", txt, re.S)
        self.ok = m is not None
        if not self.ok:
            return
        self.specstr = m.group(1)
        self.spec = sum(ch in "clrpmbX" for ch in self.specstr) if "\x01" not in self.specstr else None
        body = m.group(2)
        body = body.replace("\\hline", "")
        rows = re.split(r"\\\\", body)
        self.rows = []
        for r in rows[:-1]:
            self.rows.append([c.strip() for c in r.split("&")])
        self.tail = rows[-1].strip()
        self.head = txt[: m.start()]

    def of(self, cell):
        """terms inside a cell"""
        return [self.terms[int(i)] for i in re.findall("\x01(\\d+)\x01", cell)]

    def plain(self, cell):
        return re.sub("\x01(\\d+)\x01", lambda m: "…", cell)
