"""Field expressions as named polynomials, compared with formulas written down in the rules."""
import ast
from common import *

TRANSPARENT = ("clone", "cloned", "copied", "as_ref", "as_slice", "to_vec", "iter", "deref", "borrow", "into", "unwrap", "expect", "into_inner", "collect", "to_owned")


class Unknown(Exception):
    pass


class Alg:
    """names: {argument position: name}; loops: letters for the loops around the expression are given out by nesting"""
    def __init__(self, q, names, rewrite=None, mul=("mul_poly",)):
        self.q, self.kf, self.rewrite, self.mul = q, KForm(q), rewrite, mul
        self.names = {}
        for i, n in names.items():
            self.names[arg(q.an.entry, i)] = n
        self.sites = {}
        self.memo = {}
        self.active = []

    def inside(self, h):
        """the expression belongs to an iteration of this loop"""
        return bool(self.site(h) & set(self.sites))

    # ---- names
    def letter(self, site):
        return self.sites.get(site, "n")

    def itext(self, i):
        i = self.kf.i(i)
        if is_int_const(i):
            return str(int(i.args[0]))
        if i.op == "K":
            return self.letter(i.args[0])
        if i.op == "fromend":
            return f"-{self.itext(i.args[0])}"
        if i.op == "isum":
            c = i.args[1]
            xs = []
            for (n, _), a in zip(i.args[0], i.args[2:]):
                xs.append(("" if n == 1 else f"{n}*") + (self.letter(a.args[0]) if a.op == "K" else "#" + self.name(a.args[0]) if a.op == "len" else self.name(a)))
            s = "+".join(sorted(xs))
            if s.startswith("#") and "+" not in s and c < 0:
                return str(c)
            return s + (f"{c:+d}" if c else "")
        if i.op == "len":
            return "#" + self.name(i.args[0])
        return self.name(i)

    def name(self, t):
        q = self.q
        t = q.norm(t)
        if self.rewrite:
            r = self.rewrite(self, t)
            if r is not None:
                return r
        if t in self.names:
            return self.names[t]
        if t.op == "field":
            x = q.norm(t.args[0])
            if x.op == "as":
                return self.name(x.args[0])
            n = self.name(x)
            return n if str(t.args[1]) == "0" else f"{n}.{t.args[1]}"
        if t.op == "as":
            return self.name(t.args[0])
        if t.op in ("elem", "index"):
            k = self.kf(t)
            if k.op == "index" and k is not t:
                t = k
            if t.op == "index":
                v = q.norm(t.args[0])
                xs = array_of(v)
                if xs is not None and is_int_const(t.args[1]):
                    return self.name(xs[int(t.args[1].args[0])])
                return f"{self.name(v)}[{self.itext(t.args[1])}]"
            if t.op == "elem":
                return f"{self.name(t.args[0])}[{self.letter(t.args[1])}]"
            if k.op not in ("elem", "index"):
                return self.name(k)
        if t.op in ("conv", "cast", "ref", "deref", "some", "iter"):
            return self.name(t.args[0])
        if t.op == "len":
            return "#" + self.name(t.args[0])
        if t.op == "call":
            n = t.args[0].split("::")[-1]
            if n in TRANSPARENT and len(t.args) >= 3:
                return self.name(t.args[2])
            return f"{n}({','.join(self.text(x) for x in t.args[2:] if isinstance(x, Term))})"
        if t.op == "const":
            return str(t.args[0])
        if t.op == "K":
            return self.letter(t.args[0])
        if t.op == "kconst":
            return str(t.args[0]).split("::")[-1]
        if t.op == "bin":
            return f"({self.name(t.args[1])} {t.args[0]} {self.name(t.args[2])})"
        if t.op == "isum":
            return self.itext(t)
        if t.op == "phi" and t.args[0] not in q.an.loops():
            return "either(" + " | ".join(sorted({self.name(x) for x in alts(q, t)})) + ")"
        raise Unknown(pp(t, 4))

    def text(self, t):
        p = self.poly(t)
        return ptext(p)

    # ---- domains
    def dom(self, d):
        d = self.q.norm(d)
        if d.op == "zip":
            return sorted({x for a in d.args[:2] for x in self.dom(a)} - {""}) or [""]
        if d.op in ("enumerate", "enum", "map", "cloned", "copied"):
            return self.dom(d.args[0])
        if d.op == "skip":
            return [f"{x}[{self.itext(d.args[1])}:]" for x in self.dom(d.args[0])]
        if d.op == "take":
            return [f"{x}[:{self.itext(d.args[1])}]" for x in self.dom(d.args[0])]
        if d.op == "slice":
            a, b = self.itext(d.args[1]), self.q.norm(d.args[2])
            b = "" if b.op == "end" else self.itext(b)
            return [self.name(d.args[0]) + f"[{'' if a == '0' else a}:{b}]"]
        if d.op == "ridx" or d.op == "agg" and str(d.args[0]).split("::")[-1] == "Range":
            a, b = (self.itext(x) for x in (d.args[:2] if d.op == "ridx" else d.args[3:5]))
            if a == "0" and b.startswith("#"):
                return [b[1:]]
            return [f"{a}..{b}"]
        if d.op == "rangefrom" or d.op == "agg" and str(d.args[0]).split("::")[-1] == "RangeFrom":
            return [""]
        return [self.name(d)]

    # ---- polynomials
    def poly(self, t):
        r = {}
        for m, c in ring(self.q, t).items():
            p = {(): c}
            for x in m:
                p = nmul(p, self.atom(x))
            r = nadd(r, p)
        return r

    def atom(self, t):
        q = self.q
        t = q.norm(t)
        if t in self.memo:
            return self.memo[t]
        r = self._atom(t)
        self.memo[t] = r
        return r

    def _atom(self, t):
        q = self.q
        if self.rewrite:
            r = self.rewrite(self, t)
            if r is not None:
                return r if isinstance(r, dict) else {(r,): 1}
        if t.op == "call":
            n = t.args[0].split("::")[-1]
            if n == "pow" and len(t.args) == 4:
                e = q.norm(t.args[3])
                xs = array_of(e)
                e = xs[0] if xs is not None and len(xs) == 1 else e
                if is_int_const(e) and 0 <= int(e.args[0]) <= 8:
                    p, b = {(): 1}, self.poly(t.args[2])
                    for _ in range(int(e.args[0])):
                        p = nmul(p, b)
                    return p
                return {(f"({self.text(t.args[2])})**{self.itext(e)}",): 1}
            if n in self.mul and len(t.args) == 4:
                return nmul(self.poly(t.args[2]), self.poly(t.args[3]))
            if n in ("inverse",) and len(t.args) == 3:
                return {(f"1/({self.text(t.args[2])})",): 1}
            if n in TRANSPARENT and len(t.args) >= 3:
                return self.poly(t.args[2])
        if t.op == "field" and q.norm(t.args[0]).op == "as":
            x = q.norm(q.norm(t.args[0]).args[0])
            if x.op == "call" and x.args[0].split("::")[-1] == "inverse":
                return self.atom(x)
        if t.op == "bin" and t.args[0] == "Div":
            return nmul(self.poly(t.args[1]), {(f"1/({self.text(t.args[2])})",): 1})
        if t.op == "phi":
            return self.loop(t)
        if t.op == "index" or t.op == "elem":
            k = self.kf(t)
            if k.op not in ("index", "elem", "bindk"):
                return self.poly(k)
        if t.op in ("conv", "cast") and len(t.args) == 2:
            return self.poly(t.args[0]) if is_int_const(t.args[0]) else {(self.name(t.args[0]),): 1}
        return {(self.name(t),): 1}

    def loop(self, ph):
        q = self.q
        r = recur(q, ph)
        if r is None:
            if ph.args[0] in q.an.loops():
                raise Unknown("a value of a loop: " + pp(ph, 4))
            return {(either(self.poly(x) for x in alts(q, ph)),): 1}
        init, step, h = r
        d = q.loop_domain(h)
        if d is None:
            raise Unknown("a loop that does not go over a list")
        inner = h in self.active or self.inside(h)
        site = self.site(h)
        old, oldm = dict(self.sites), self.memo
        depth = sum(1 for x in self.sites.values() if x in "ijk")
        for s in site:
            self.sites[s] = "ijk"[min(depth, 2)]
        self.memo = {}
        self.active.append(h)
        try:
            mul, add = {}, {}
            for m, c in ring(q, step).items():
                n = sum(1 for x in m if x is ph)
                if n > 1:
                    raise Unknown("a loop that is neither a sum nor a product")
                p = {(): c}
                for x in m:
                    if x is not ph:
                        p = nmul(p, self.atom(x))
                if n:
                    mul = nadd(mul, p)
                else:
                    add = nadd(add, p)
            dom = "&".join(self.dom(d))
        finally:
            self.active.pop()
            self.sites, self.memo = old, oldm
        if not add:
            # the product so far when the loop is still running
            return nmul(self.poly(init), {(f"{'run' if inner else 'prod'}({dom}: {ptext(mul)})",): 1})
        if mul == {(): 1}:
            return nadd(self.poly(init), {(f"{'runsum' if inner else 'sum'}({dom}: {ptext(add)})",): 1})
        raise Unknown("a loop that is neither a sum nor a product")

    def site(self, h):
        """what the elements of this loop are marked with"""
        r = set()
        for cond, stay, n in self.q.exit_conds(h):
            c = self.q.an.simp(cond)
            if c.op == "disc" and c.args[0].op == "optelem":
                r.add(c.args[0].args[2])
            elif c.op == "more":
                r.add(c.args[1])
            elif c.op == "bin":
                r |= {y.args[2] for x in c.args[1:] if x.op == "phi" for y in [self.q.norm(x)] if y.op == "ridx"}
        return r


def either(ps):
    return "either(" + " | ".join(sorted({ptext(p) for p in ps})) + ")"


def nmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            k = tuple(sorted(x + y))
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def nadd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def ptext(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        s = "*".join(m)
        out.append(s if c == 1 and s else f"-{s}" if c == -1 and s else f"{c}*{s}" if s else str(c))
    return " + ".join(out)


def formula(text):
    """a formula as a named polynomial: + - * ** (small), prod('list', body), sum('list', body), inv(x), names with fields and positions"""
    return _f(ast.parse(text, mode="eval").body)


def _f(e):
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, ast.Pow):
            if isinstance(e.right, ast.Constant):
                p, b = {(): 1}, _f(e.left)
                for _ in range(e.right.value):
                    p = nmul(p, b)
                return p
            return {(f"({ptext(_f(e.left))})**{ast.unparse(e.right)}",): 1}
        a, b = _f(e.left), _f(e.right)
        if isinstance(e.op, ast.Mult):
            return nmul(a, b)
        if isinstance(e.op, ast.Div):
            return nmul(a, {(f"1/({ptext(b)})",): 1})
        return nadd(a, b, 1 if isinstance(e.op, ast.Add) else -1)
    if isinstance(e, ast.UnaryOp):
        return nadd({}, _f(e.operand), -1)
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return {(): e.value} if e.value else {}
    if isinstance(e, ast.Constant):
        return {(e.value,): 1}
    if isinstance(e, ast.Call):
        n = e.func.id
        if n in ("prod", "sum", "run", "runsum"):
            return {(f"{n}({e.args[0].value}: {ptext(_f(e.args[1]))})",): 1}
        if n == "either":
            return {(either(_f(a) for a in e.args),): 1}
        if n == "inv":
            return {(f"1/({ptext(_f(e.args[0]))})",): 1}
        return {(f"{n}({','.join(ptext(_f(a)) for a in e.args)})",): 1}
    return {(ast.unparse(e),): 1}


def is_formula(rep, alg, facet, w, t, want, msg, also=()):
    """the value is the polynomial want (or one of also)"""
    wants = [formula(x) if isinstance(x, str) else x for x in (want, *also)]
    try:
        got = alg.poly(t)
    except Unknown as e:
        return rep.verdict(None, facet, w, f"{msg}: {e}")
    return rep.verdict(got in wants, facet, w, f"{msg}: found {ptext(got)[:300]}, expected {ptext(wants[0])[:300]}")
