"""Canonical text of a value: loop variables and merge points are numbered in order of first appearance and
their inputs written out, so two programs with the same value flow give the same text."""
import re
from engine import *
from q import *


class Canon:
    def __init__(self, q, tyname=lambda s: s):
        self.q, self.an = q, q.an
        self.ids = {}
        self.pend = []
        self.ty = tyname

    def num(self, k, kind):
        d = self.ids.setdefault(kind, {})
        if k not in d:
            d[k] = len(d)
            return d[k], True
        return d[k], False

    def text(self, t, limit=4000):
        out = [self.r(t, 0)]
        n = 0
        while self.pend and n < limit:
            n += 1
            ph, i = self.pend.pop(0)
            lp = self.q.loop_phi(ph)
            if lp is not None:
                ini = sorted({self.r(x, 0) for x in lp[1]})
                st = sorted({self.r(x, 0) for x in lp[2]})
                out.append(f"L{i} := {ini} | {st} over {self.r(self.q.loop_domain(lp[0]), 0) if self.q.loop_domain(lp[0]) is not None else '?'}")
            else:
                ins = sorted({self.r(x, 0) for x in self.an.phi_inputs(ph) if x.op != "undef"})
                out.append(f"P{i} := {ins}")
        return "\n".join(out)

    def r(self, t, d):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return "(" + ",".join(self.r(x, d + 1) for x in t) + ")"
            return self.ty(str(t))
        t = self.q.norm(t)
        if d > 60:
            return "..."
        if t.op == "phi":
            i, new = self.num(t, "phi")
            if new:
                self.pend.append((t, i))
            return f"phi{i}"
        if t.op in ("elem", "idx", "more"):
            return f"{t.op}({self.r(t.args[0], d + 1)},s{self.num(t.args[1], 'site')[0]})"
        if t.op == "optelem":
            return f"optelem({self.r(t.args[0], d + 1)},{self.r(t.args[1], d + 1)},s{self.num(t.args[2], 'site')[0]})"
        if t.op == "ridx":
            return f"ridx({self.r(t.args[0], d + 1)},{self.r(t.args[1], d + 1)},s{self.num(t.args[2], 'site')[0]},{t.args[3]})"
        if t.op in ("map", "flatmap", "filter", "takewhile", "skipwhile", "filtermap") and len(t.args) == 3:
            return f"{t.op}({self.r(t.args[0], d + 1)},{self.r(t.args[1], d + 1)},s{self.num(t.args[2], 'site')[0]})"
        if t.op == "bin" and t.args[0] in COMM:
            a = sorted(self.r(x, d + 1) for x in t.args[1:])
            return f"{t.args[0]}({a[0]},{a[1]})"
        if t.op in ("min", "max"):
            return f"{t.op}({','.join(sorted(self.r(x, d + 1) for x in t.args))})"
        if t.op == "call":
            return f"{t.args[0]}({','.join(self.r(x, d + 1) for x in t.args[2:])})"
        return f"{t.op}[{','.join(self.r(x, d + 1) for x in t.args)}]"
