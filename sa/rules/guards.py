"""Conditions a function has checked whenever it succeeds, in terms of components of its arguments."""
from fractions import Fraction
from common import *
from plonk_rules import path_of, partial


class Checked:
    """facts of a function; components are (argument name, path), lengths ("len", argument name, path)"""
    def __init__(self, rep, prog, fn, opaque=(), exits=None):
        self.rep, self.fn, self.w = rep, fn, fn.path
        self.an, self.q = rep.analyse(prog, fn, opaque=lambda g: g.name in opaque and g is not fn)
        self.facts, self.points = accept_facts(self.an, self.q, exits)
        # a condition checked for a part of a collection only says nothing about all of it
        short = [b for h, (b, _) in self.an.loops().items() if self.q.loop_domain(h) is not None and partial(self.q, self.q.loop_domain(h))]
        nid = lambda n: n if isinstance(n, int) else n.id
        self.facts = [fa for fa in self.facts if fa.node is None or not any(nid(fa.node) in b for b in short)]
        self.roots = [(fn.locals[i][1] or f"_{i}", arg(fn, i)) for i in range(1, fn.argc + 1)]

    # ------------------------------------------------------------ components
    def comp(self, t):
        q = self.q
        t = q.norm(t)
        if t.op == "len":
            c = self.comp(t.args[0])
            return None if c is None else ("len",) + c
        for n, r in self.roots:
            p = path_of(q, t, r)
            if p is not None:
                return (n, p)
        return None

    def key(self, t):
        c = self.comp(t)
        if c is not None:
            return c
        t = self.q.norm(t)
        if t.op == "len":
            return ("len", pp(strip_sites(t.args[0]), 12))
        return pp(strip_sites(t), 12)

    def vec(self, a, b):
        """a - b as {component: coefficient}; the constant under None"""
        out = {}
        for t, s in ((a, 1), (b, -1)):
            for k, c in lin(self.q, t).items():
                kk = None if k is None else self.key(k)
                out[kk] = out.get(kk, 0) + s * c
        return {k: v for k, v in out.items() if v}

    def equations(self, must=True):
        for fa in self.facts:
            if fa.must >= must and fa.pred[0] == "Eq":
                yield self.vec(fa.pred[1], fa.pred[2])

    def open(self):
        """is there a must-condition with an unknown component that could express anything"""
        return any(isinstance(k, str) and ("phi" in k or "?" in k) for v in self.equations() for k in v)

    # -------------------------------------------------------------- verdicts
    def equal(self, facet, want, msg, where=""):
        """want {component: coefficient} = 0 follows from the checked equations"""
        w = f"{self.w} {where}".strip()
        ok = spans([v for v in self.equations()], want)
        if not ok:
            # compared, but not on every way to success, or in a form that was not read
            names = {k for k in want if k is not None}
            tried = [p.pred for p in self.facts if p.pred[0] not in ("Eq", "is") and isinstance(p.pred[1], Term) and any(self.mentions(x, names) for x in p.pred[1:] if isinstance(x, Term))]
            if any(p[0] in ("true", "false", "in") for p in tried):
                return self.rep.unk(facet, w, f"{msg}; related: {[pp(p[1], 4) for p in tried][:2]}")
        return self.rep.verdict(bool(ok), facet, w, msg)

    def mentions(self, t, names):
        hit = []

        def pred(x):
            if x.op in ("len", "field", "index", "elem"):
                k = self.comp(x)
                if k is not None and k in names:
                    hit.append(k)
            return False
        find(self.q, t, pred, False)
        return len(set(hit)) >= min(2, len(names))

    def excluded(self, facet, comp, value, msg, where=""):
        """the component cannot have this value on success"""
        w = f"{self.w} {where}".strip()
        for fa in self.facts:
            p = fa.pred
            if not fa.must or p[0] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "true", "false"):
                continue
            t = T("bin", p[0], p[1], p[2]) if p[0] not in ("true", "false") else p[1]
            at = self.q.iatoms(t)
            if at and all(self.comp(a) == comp for a in at):
                v = self.q.ieval(t, {a: value for a in at})
                if v is not None and bool(v) == (p[0] == "false"):
                    return self.rep.verdict(True, facet, w, "")
        # emptiness that follows from an equation with something known to be non-empty is not looked for
        return self.rep.verdict(False, facet, w, msg)

    def is_(self, facet, comp, variants, msg, where=""):
        w = f"{self.w} {where}".strip()
        for fa in self.facts:
            if fa.must and fa.pred[0] == "is" and self.comp(fa.pred[1]) == comp and fa.pred[2] <= frozenset(variants):
                return self.rep.verdict(True, facet, w, "")
        return self.rep.verdict(False, facet, w, msg)

    def flag(self, facet, comp, value, msg, where=""):
        w = f"{self.w} {where}".strip()
        for fa in self.facts:
            if fa.must and fa.pred[0] == ("true" if value else "false") and self.comp(fa.pred[1]) == comp:
                return self.rep.verdict(True, facet, w, "")
        return self.rep.verdict(False, facet, w, msg)

    def succeeded(self, facet, name, msg, true=False, where=""):
        """a call of that name has returned Ok (and true)"""
        w = f"{self.w} {where}".strip()
        for fa in self.facts:
            if not fa.must:
                continue
            p = fa.pred
            t = p[1]
            if not true and p[0] == "is" and p[2] == frozenset({"Ok"}) and self.q.norm(t).op == "call" and nm(self.q.norm(t)) == name:
                return self.rep.verdict(True, facet, w, "")
            if true and p[0] == "true" and isinstance(t, Term):
                c = okof(self.q.norm(t)) or self.q.norm(t)
                if c.op == "call" and nm(c) == name:
                    return self.rep.verdict(True, facet, w, "")
        return self.rep.verdict(False, facet, w, msg)

    # ---------------------------------------------------------- per iteration
    def iterations(self):
        """[(domain, [conditions of one complete iteration])] of the innermost loops"""
        out = []
        for h in self.an.loops():
            ps = self.q.loop_paths(h)
            if ps is None or self.q.loop_domain(h) is not None and partial(self.q, self.q.loop_domain(h)):
                continue
            out.append((self.q.loop_domain(h), [self.along(p, h) for p in ps]))
        return out

    def along(self, path, h):
        """conditions of one way through a loop body, with the values they have on that way"""
        an, q = self.an, self.q
        out = []
        for i, a in enumerate(path):
            n = an.nodes[a]
            if n.cond is None or len(n.succ) < 2:
                continue
            b = path[i + 1] if i + 1 < len(path) else h
            l = q.labels(n, n.succ.get(b, set()))
            if l is None:
                continue
            c = resolve(q, an.simp(n.cond[0]), path[:i], a)
            p = q.pred_of(q.norm(c), {l} if not isinstance(l, tuple) else {x for x in (0, 1) if x not in l[1]})
            if p[0] in ("Eq", "Ne"):
                for x, k in (p[1:], p[:0:-1]):
                    if k.op == "const" and k.args[0] in (0, 1, True, False) and (x.op == "call" or x.op == "field"):
                        out.append(("true" if (p[0] == "Eq") == bool(k.args[0]) else "false", x, None))
            out.append(p)
        return out

    def agree(self, facet, a, b, msg, where=""):
        """both components are of the same variant in every complete iteration of some loop"""
        w = f"{self.w} {where}".strip()
        for _, its in self.iterations():
            rel = [[p for p in it if p[0] == "is" and self.comp(p[1]) in (a, b)] for it in its]
            if not its:
                continue
            both = [({p[2] for p in it if self.comp(p[1]) == a}, {p[2] for p in it if self.comp(p[1]) == b}) for it in rel]
            feasible = [x for x in both if len(x[0]) <= 1 and len(x[1]) <= 1]
            if feasible and all(x[0] and x[0] == x[1] for x in feasible):
                return self.rep.verdict(True, facet, w, "")
        return self.rep.verdict(False, facet, w, msg)

    def when(self, facet, comp, variant, want, msg, where=""):
        """in every complete iteration in which the component may be of the variant, the equation has been checked"""
        w = f"{self.w} {where}".strip()
        for _, its in self.iterations():
            rel = [it for it in its if not any(p[0] == "is" and self.comp(p[1]) == comp and variant not in p[2] for p in it)]
            if rel and len(rel) < len(its) and all(any(p[0] == "Eq" and spans([self.vec(p[1], p[2])], want) for p in it) for it in rel):
                return self.rep.verdict(True, facet, w, "")
            if rel and all(any(p[0] == "Eq" and spans([self.vec(p[1], p[2])], want) for p in it) for it in rel):
                return self.rep.verdict(True, facet, w, "")
        return self.rep.verdict(False, facet, w, msg)


def resolve(q, t, path, end, depth=0):
    """operands of a condition with the joins replaced by the value of the way taken"""
    if depth > 4:
        return t
    if t.op == "phi":
        return q.on_path(path, end, t)
    if t.op in ("bin", "un"):
        return T(t.op, t.args[0], *[resolve(q, x, path, end, depth + 1) if isinstance(x, Term) else x for x in t.args[1:]])
    return t


def spans(vecs, want):
    """is want a rational combination of vecs"""
    keys = sorted({k for v in vecs + [want] for k in v}, key=str)
    rows = [[Fraction(v.get(k, 0)) for k in keys] for v in vecs]
    w = [Fraction(want.get(k, 0)) for k in keys]
    for c in range(len(keys)):
        piv = next((r for r in rows if r[c]), None)
        if piv is None:
            continue
        rows = [r for r in rows if r is not piv]
        rows = [[x - r[c] / piv[c] * y for x, y in zip(r, piv)] for r in rows]
        if w[c]:
            k = w[c] / piv[c]
            w = [x - k * y for x, y in zip(w, piv)]
    return not any(w)


def ln(*c):
    return ("len",) + c
