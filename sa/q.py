"""Queries over an Analysis: canonical terms, integer expressions, sequences, guards."""
import itertools
from engine import *

WIDE = {"usize", "u64", "u128", "isize", "i64", "i128", "i32"}
NARROW = {"u8", "u16", "i8", "i16", "u32"}
COMM = {"Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor"}
FLIP = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}


def callname(t):
    return t.args[0] if t.op == "call" else None


def callargs(t):
    return t.args[2:]


def iscall(t, *names):
    if t.op != "call":
        return False
    n = t.args[0]
    return any(n == x or n.split("::")[-1] == x for x in names)


class Q:
    def __init__(self, an):
        self.an = an
        self._n = {}

    # ------------------------------------------------------------ canonical
    def norm(self, t):
        if not isinstance(t, Term):
            return t
        r = self._n.get(t)
        if r is not None:
            return r
        self._n[t] = t          # cycle guard
        r = self._norm(t)
        self._n[t] = r
        return r

    def _norm(self, t):
        an = self.an
        if t.op == "phi":
            s = an.simp(t)
            if s is not t:
                return self.norm(s)
            iv = self.induction(t)
            if iv is not None:
                return iv
            return t
        if t.op in ("const", "arg", "fn", "prim", "undef", "kconst"):
            return t
        a = [self.norm(x) if isinstance(x, Term) else x for x in t.args]
        op = t.op
        if op == "field":
            x = a[0]
            if x.op == "as" and x.args[1] == "Some" and a[1] == "0" and x.args[0].op == "call":
                c = x.args[0]
                n = c.args[0].split("::")[-1]
                o = {"checked_add": "Add", "checked_mul": "Mul", "checked_sub": "Sub", "checked_div": "Div", "checked_rem": "Rem"}.get(n)
                if o and len(c.args) == 4:
                    return self.norm(fold_bin(o, c.args[2], c.args[3]))
                if n in ("first",):
                    return self.norm(index(c.args[2], const(0)))
                if n == "get" and len(c.args) == 4:
                    return self.norm(index(c.args[2], c.args[3]))
                if n == "last":
                    return T("index", c.args[2], T("fromend", const(1)))
                if n == "split_first":
                    return T("agg", "tuple", "", (), self.norm(index(c.args[2], const(0))), T("slice", c.args[2], const(1), T("end")))
                if n == "split_last":
                    return T("agg", "tuple", "", (), T("index", c.args[2], T("fromend", const(1))), T("slice", c.args[2], const(0), T("fromend", const(1))))
            return rebuild("field", a)
        if op == "cast" or op == "conv":
            if a[1] in WIDE:
                return a[0]
            return T(op, *a)
        if op == "index":
            return self.nindex(a[0], a[1])
        if op == "len":
            return self.nlen(a[0])
        if op == "bin":
            return self.nbin(a[0], a[1], a[2])
        if op == "un" and a[0] == "Not":
            x = a[1]
            if x.op == "bin" and x.args[0] in NEG:
                return T("bin", NEG[x.args[0]], x.args[1], x.args[2])
            if x.op == "un" and x.args[0] == "Not":
                return x.args[1]
            return T("un", "Not", x)
        if op == "call":
            return self.ncall(T("call", *a))
        if op == "slice":
            return self.nslice(*a)
        if op == "elem":
            return self.nelem(a[0], a[1])
        if op == "as":
            return downcast(*a)
        if op == "disc" and a[0].op == "call" and [x for _, x in a[1]] == ["None", "Some"] and len(a[0].args) >= 3:
            n = a[0].args[0].split("::")[-1]
            if n in ("first", "split_first", "last", "split_last") and len(a[0].args) == 3:
                return T("bin", "Ne", self.nlen(a[0].args[2]), const(0))
            return T("disc", *a)
        if op == "unz":
            x = a[0]
            if x.op == "map" and x.args[1].op == "agg" and x.args[1].args[0] == "tuple":
                return T("map", x.args[0], x.args[1].args[3 + a[1]], x.args[2])
            return T("unz", *a)
        if op == "oks":
            x = a[0]
            if x.op == "map":
                b = x.args[1]
                return T("map", x.args[0], self.norm(field(downcast(b, "Ok"), 0, "0")), x.args[2])
        return T(op, *a)

    def nslice(self, v, a, b):
        if a.op == "const" and a.args[0] == 0 and (b.op == "end"):
            return v
        if v.op == "slice" and a.op == "const" and a.args[0] == 0 and v.args[1].op == "const" and v.args[1].args[0] == 0 and b.op != "end":
            return T("slice", v.args[0], a, b) if b.op != "fromend" else T("slice", v, a, b)
        return T("slice", v, a, b)

    def nelem(self, v, site):
        if v.op == "slice" and False:
            return T("elem", v, site)
        return elem(v, site)

    def nindex(self, v, i):
        if i.op == "idx" and (i.args[0] is v):
            return self.nelem(v, i.args[1])
        if i.op == "ridx" and i.args[0].op == "const" and i.args[0].args[0] == 0 and not i.args[3]:
            hi = i.args[1]
            if self.same_len(hi, v):
                return self.nelem(v, i.args[2])
        if v.op == "map" and i.op in ("ridx", "idx"):
            pass
        return index(v, i)

    def same_len(self, hi, v):
        return hi is self.nlen(v)

    def nlen(self, v):
        if v.op in ("map", "enumerate", "rev", "itermut", "peekable", "oks", "resized"):
            x = v.args[0]
            return self.nlen(x) if x.op != "mref" else T("len", v)
        if v.op == "store":
            return self.nlen(v.args[0])
        if v.op == "zip":
            a, b = self.nlen(v.args[0]), self.nlen(v.args[1])
            return a if a is b else self.mm("min", a, b)
        if v.op == "take":
            if v.args[0].op == "call" and v.args[0].args[0].split("::")[-1] in ("repeat", "repeat_with"):
                return v.args[1]
            return self.mm("min", self.nlen(v.args[0]), v.args[1])
        if v.op == "chain" or v.op == "ext":
            return self.nbin("Add", self.nlen(v.args[0]), self.nlen(v.args[1]))
        if v.op == "push":
            return self.nbin("Add", self.nlen(v.args[0]), const(1))
        if v.op == "fill":
            return v.args[1]
        if v.op in ("resize", "trunc"):
            return v.args[1] if v.op == "resize" else self.mm("min", self.nlen(v.args[0]), v.args[1])
        if v.op == "agg" and v.args[0] == "array":
            return const(len(v.args) - 3)
        if v.op == "agg" and v.args[0].split("::")[-1] == "Range":
            return self.nbin("Sub", v.args[4], v.args[3])
        if v.op == "rangei":
            return self.nbin("Add", self.nbin("Sub", v.args[1], v.args[0]), const(1))
        if v.op == "call" and v.args[0].split("::")[-1] == "once":
            return const(1)
        if v.op == "slice":
            a, b = v.args[1], v.args[2]
            hi = self.nlen(v.args[0]) if b.op == "end" else self.nbin("Sub", self.nlen(v.args[0]), b.args[0]) if b.op == "fromend" else b
            return self.nbin("Sub", hi, a)
        return T("len", v)

    def mm(self, k, a, b):
        if a is b:
            return a
        if is_int_const(a) and is_int_const(b):
            return const(min(a.args[0], b.args[0]) if k == "min" else max(a.args[0], b.args[0]))
        x, y = sorted((a, b), key=lambda z: z.id)
        return T(k, x, y)

    def nbin(self, op, a, b):
        if op in ("Add", "Sub") and is_int_const(b) and b.args[0] == 0:
            return a
        if op == "Mul" and is_int_const(b) and b.args[0] == 1:
            return a
        if op == "Shl" and is_int_const(b) and b.args[0] < 128:
            return fold_bin("Mul", a, const(1 << b.args[0]))
        if op == "Shr" and is_int_const(b) and b.args[0] < 128:
            return fold_bin("Div", a, const(1 << b.args[0]))
        if op in COMM and a.id > b.id:
            a, b = b, a
        return fold_bin(op, a, b)

    def ncall(self, t):
        n = t.args[0].split("::")[-1]
        A = t.args[2:]
        if n in ("min", "max") and len(A) == 2:
            return self.mm(n, A[0], A[1])
        if n == "size_of" and not A:
            g = t.args[1]
            sz = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "u128": 16}.get(g[0] if g else "")
            if sz:
                return const(sz)
        if n in ("div_ceil", "next_multiple_of", "is_multiple_of", "saturating_sub", "abs_diff", "wrapping_sub", "wrapping_add", "wrapping_mul", "saturating_add",
                 "is_power_of_two", "next_power_of_two", "pow", "log2", "ilog2", "trailing_zeros", "rem_euclid", "div_euclid") and t.args[0].split("::")[0] in ("num", "uint_impl", "core"):
            if n in ("rem_euclid",):
                return self.nbin("Rem", *A)
            if n == "div_euclid":
                return self.nbin("Div", *A)
            return T("iop", n, *A)
        if n in ("eq", "ne") and len(A) == 2:
            return self.nbin({"eq": "Eq", "ne": "Ne"}[n], *A)
        return t

    # ------------------------------------------------------------ induction
    def loop_phi(self, ph):
        """(loop header, init values, latch values) for a phi at a loop header"""
        nid = ph.args[0]
        L = self.an.loops().get(nid)
        if L is None:
            return None
        body, lat = L
        init, step = [], []
        for p, v in self.an.phis.get(ph, {}).items():
            (step if p in body else init).append(v)
        return nid, init, step

    def exit_conds(self, header):
        """conditions of branches leaving the loop: [(cond, labels that stay, node)]"""
        body, _ = self.an.loops()[header]
        out = []
        for i in sorted(body):
            n = self.an.nodes[i]
            if n.cond is None:
                continue
            stay = set()
            leave = set()
            for s, labs in n.succ.items():
                (stay if s in body else leave).update(labs)
            if stay and leave:
                out.append((n.cond[0], stay, n))
        return out

    def induction(self, ph):
        lp = self.loop_phi(ph)
        if lp is None:
            return None
        nid, init, step = lp
        inits = {self.an.simp(v) for v in init}
        if len(inits) != 1 or not step:
            return None
        c = None
        for s in step:
            s = self.an.simp(s)
            if s.op == "bin" and s.args[0] in ("Add", "Sub") and is_int_const(s.args[2]) and s.args[1] is ph:
                d = s.args[2].args[0] * (1 if s.args[0] == "Add" else -1)
                if c is not None and c != d:
                    return None
                c = d
            else:
                return None
        start = self.norm(inits.pop())
        site = ("iv", nid, ph.args[1], ph.args[2], ph.args[3])
        for cond, stay, n in self.exit_conds(nid):
            cond = self.an.simp(cond)
            if cond.op == "bin" and cond.args[0] in NEG:
                o, x, y = cond.args
                if y is ph and x is not ph:
                    o, x, y = FLIP[o], y, x
                if x is ph:
                    if stay == {0}:
                        o = NEG[o]
                    elif stay != {1}:
                        continue
                    y = self.norm(y)
                    if c == 1 and o in ("Lt", "Ne"):
                        return T("ridx", start, y, site, "")
                    if c == 1 and o == "Le":
                        return T("ridx", start, self.nbin("Add", y, const(1)), site, "")
                    if c == -1 and o == "Gt":
                        return T("ridx", self.nbin("Add", y, const(1)), self.nbin("Add", start, const(1)), site, "rev")
                    if c == -1 and o in ("Ge",):
                        return T("ridx", y, self.nbin("Add", start, const(1)), site, "rev")
                    if c == -1 and o == "Ne":
                        return T("ridx", self.nbin("Add", y, const(1)), self.nbin("Add", start, const(1)), site, "rev")
        return None

    # ------------------------------------------------------------ sequences
    def seq(self, t, depth=0):
        """parts of a sequence-valued term"""
        t = self.norm(t)
        if depth > 12:
            return [("?", t)]
        d = depth + 1
        if t.op == "agg" and t.args[0] == "array":
            return [("one", x) for x in t.args[3:]]
        if t.op == "push":
            return self.seq(t.args[0], d) + [("one", t.args[1])]
        if t.op in ("ext", "chain"):
            return self.seq(t.args[0], d) + self.seq(t.args[1], d)
        if t.op == "concat":
            return [p for x in (t.args[0].args[3:] if t.args[0].op == "agg" else [t.args[0]]) for p in self.seq(x, d)]
        if t.op == "call" and t.args[0].split("::")[-1] == "once":
            return [("one", t.args[2])]
        if t.op == "call" and t.args[0].split("::")[-1] == "empty" and len(t.args) == 2:
            return []
        if t.op == "map":
            if t.args[0].op == "flatmap":
                f = t.args[0]
                return [("eachseq", f.args[0], [("each", f.args[1], t.args[1], t.args[2])], f.args[2])]
            return [("each", t.args[0], t.args[1], t.args[2])]
        if t.op == "flatmap" and t.args[0].op == "flatmap":
            f = t.args[0]
            return [("eachseq", f.args[0], [("eachseq", f.args[1], self.seq(t.args[1], d), t.args[2])], f.args[2])]
        if t.op == "flatmap":
            return [("eachseq", t.args[0], self.seq(t.args[1], d), t.args[2])]
        if t.op == "call" and t.args[0].split("::")[-1] == "flatten" and t.args[2].op == "map":
            m = t.args[2]
            return [("eachseq", m.args[0], self.seq(m.args[1], d), m.args[2])]
        if t.op == "take" and t.args[0].op == "call" and t.args[0].args[0].split("::")[-1] == "repeat":
            return [("rep", t.args[0].args[2], t.args[1])]
        if t.op == "fill":
            return [("rep", t.args[0], t.args[1])]
        if t.op == "call" and t.args[0].split("::")[-1] == "repeat_n":
            return [("rep", t.args[2], t.args[3])]
        if t.op == "repeat":
            return [("rep", t.args[0], T("kconst", t.args[1], ()))]
        if t.op == "resize":
            return self.seq(t.args[0], d) + [("padto", t.args[1], t.args[2])]
        if t.op == "trunc":
            return [("trunc", self.seq(t.args[0], d), t.args[1])]
        if t.op == "phi":
            lp = self.loop_phi(t)
            if lp is not None:
                nid, init, step = lp
                if len(set(init)) == 1 and step:
                    base = self.seq(init[0], d)
                    outs = []
                    for s in set(step):
                        p = self.tail_after(s, t, d)
                        if p is None:
                            return [("?", t)]
                        outs.append(p)
                    if all(o == outs[0] for o in outs):
                        dom = self.loop_domain(nid)
                        if outs[0] and outs[0] != []:
                            return base + [("loop", dom, outs[0], nid)]
                        return base
            return [("?", t)]
        return [("all", t)]

    def tail_after(self, s, ph, d):
        """parts appended to the loop-carried sequence ph in one iteration"""
        s = self.an.simp(s)
        if s is ph:
            return []
        if s.op == "push":
            r = self.tail_after(s.args[0], ph, d)
            return None if r is None else r + [("one", self.norm(s.args[1]))]
        if s.op in ("ext", "chain"):
            r = self.tail_after(s.args[0], ph, d)
            return None if r is None else r + self.seq(s.args[1], d)
        if s.op == "phi":
            lp = self.loop_phi(s)
            if lp is not None and len(set(lp[1])) == 1:
                r = self.tail_after(lp[1][0], ph, d)
                if r is None:
                    return None
                outs = []
                for x in set(lp[2]):
                    p = self.tail_after(x, s, d)
                    if p is None:
                        return None
                    outs.append(p)
                if outs and all(o == outs[0] for o in outs):
                    return r + ([("loop", self.loop_domain(lp[0]), outs[0], lp[0])] if outs[0] else [])
                return None
            ins = self.an.phi_inputs(s)
            outs = [self.tail_after(x, ph, d) for x in ins]
            if outs and None not in outs and all(o == outs[0] for o in outs):
                return outs[0]
        return None

    def loop_paths(self, header, limit=400):
        """acyclic paths through one iteration of a loop: [node ids from header back to header]; None when too many or nested"""
        an = self.an
        body, lat = an.loops()[header]
        if any(h != header and h in body for h in an.loops()):
            return None
        out, stk = [], [[header]]
        while stk:
            p = stk.pop()
            for s in an.nodes[p[-1]].succ:
                if s == header:
                    out.append(p)
                elif s in body and s not in p:
                    stk.append(p + [s])
            if len(out) > limit or len(stk) > limit:
                return None
        return out

    def on_path(self, path, end, t):
        """value of a (phi) term at the end of a path, following the edges taken"""
        an = self.an
        seq = path + [end]
        for _ in range(64):
            if t.op != "phi" or t.args[0] not in seq[1:]:
                return t
            if t.args[0] == end and seq.index(end) == 0 and len(seq) == 1:
                return t
            k = max(i for i in range(1, len(seq)) if seq[i] == t.args[0])
            nxt = an.phis[t].get(seq[k - 1])
            if nxt is None:
                return an.simp(t)
            if an.simp(nxt) is t or nxt is t:
                return t
            t = an.simp(nxt) if an.simp(nxt).op != "phi" else nxt
            seq = seq[:k]
        return t

    def conds_on(self, path, end):
        an = self.an
        out = []
        for a, b in zip(path, path[1:] + [end]):
            n = an.nodes[a]
            if n.cond is not None and len(n.succ) > 1:
                labs = n.succ.get(b, set())
                l = self.labels(n, labs)
                if l is not None:
                    out.append((n.cond[0], l))
        return out

    def early_exits(self, header):
        """branches other than the exhaustion test that leave a loop and go on with the code after it"""
        an = self.an
        body, _ = an.loops()[header]
        main, rest = [], []
        for cond, stay, n in self.exit_conds(header):
            c = an.simp(cond)
            if c.op == "disc" and c.args[0].op == "optelem" or c.op == "more" or c.op == "bin" and any(x.op == "phi" and self.norm(x).op == "ridx" for x in c.args[1:]):
                main.append((c, n))
            else:
                rest.append((c, n))
        if not main:
            return []
        after = an.reachable([s for _, n in main for s in n.succ if s not in body])
        out = []
        for c, n in rest:
            t = [s for s in n.succ if s not in body]
            if set(an.reachable(t)) & set(after):
                out.append((c, n))
        return out

    def accumulating(self, header):
        """loop-carried values other than flags and counters"""
        out = []
        for ph, ins in self.an.phis.items():
            if ph.args[0] != header:
                continue
            lp = self.loop_phi(ph)
            if lp is None or self.norm(ph).op == "ridx":
                continue
            vals = [self.an.simp(v) for v in lp[1] + lp[2]]
            if all(v is ph or v.op == "const" for v in vals) or all(self.an.simp(v) is ph for v in lp[2]):
                continue
            out.append(ph)
        return out

    def loop_domain(self, header):
        """what a loop iterates over: an iterator term, or ridx"""
        for cond, stay, n in self.exit_conds(header):
            c = self.an.simp(cond)
            if c.op == "disc" and c.args[0].op == "optelem":
                return self.norm(c.args[0].args[0])
            if c.op == "more":
                return self.norm(c.args[0])
            if c.op == "bin":
                for x in c.args[1:]:
                    if x.op == "phi":
                        y = self.norm(x)
                        if y.op == "ridx":
                            return y
        return None

    # -------------------------------------------------------- integer terms
    def ieval(self, t, env):
        """value of an integer / boolean expression for given atom values; None when it is not closed"""
        return ieval(self, self.norm(t), env)

    def iatoms(self, t):
        out = set()
        _iatoms(self, self.norm(t), out, set())
        return out

    # --------------------------------------------------------------- cases
    def cases(self, node, t, depth=0):
        """[(conditions, value)] alternatives of a value at a node of an acyclic region; a condition is
        (term, label). None when too many"""
        t = self.an.simp(t)
        if t.op != "phi" or depth > 8:
            return [((), t)]
        if t.args[0] in self.an.loops():
            return [((), t)]
        n = self.an.nodes[t.args[0]]
        out = []
        for p, v in self.an.phis[t].items():
            if p < 0:
                continue
            pc = self.path_conds(p, n.id)
            for c2, v2 in self.cases(self.an.nodes[p], v, depth + 1):
                for c in pc:
                    out.append((tuple(c) + tuple(c2), v2))
            if len(out) > 200:
                return None
        return out

    def label(self, n, lab):
        """branch label; the catch-all edge is described by the values it excludes"""
        return ("not", frozenset(x for x in n.cond[1] if x is not None)) if lab == "other" else lab

    def labels(self, n, labs):
        """common label of several parallel edges: a variant switch with several arms to one target excludes the other variants"""
        if len(labs) == 1:
            return self.label(n, next(iter(labs)))
        if len(labs) > 1 and n.cond[0].op == "disc":
            every = {int(k) for k, _ in n.cond[0].args[1]}
            mine = {x for x in labs if x != "other"} | ({v for v in every if v not in n.cond[1]} if "other" in labs else set())
            return ("not", frozenset(every - mine)) if mine < every else None
        return None

    def path_conds(self, p, to):
        """conditions on the dominating edges leading to the edge p->to"""
        an = self.an
        idom = an.dom()
        conds = []
        cur = to
        n = an.nodes[p]
        if n.cond is not None:
            labs = n.succ.get(to, set())
            l = self.labels(n, labs)
            if l is not None and len(n.succ) > 1:
                conds.append((n.cond[0], l))
        x = p
        while x != 0:
            d = idom[x]
            dn = an.nodes[d]
            if dn.cond is not None and len(dn.succ) > 1:
                # which edge of d dominates x?
                hit = [s for s in dn.succ if an.dominates(s, x) and len([q for q in an.nodes[s].pred]) == 1]
                l = self.labels(dn, dn.succ[hit[0]]) if len(hit) == 1 else None
                if l is not None:
                    conds.append((dn.cond[0], l))
            x = d
        return [tuple(conds)]

    def node_conds(self, nid):
        """conditions that hold at a node because of dominating edges"""
        an = self.an
        idom = an.dom()
        conds = []
        x = nid
        while x != 0:
            d = idom[x]
            dn = an.nodes[d]
            if dn.cond is not None and len(dn.succ) > 1:
                hit = [s for s in dn.succ if an.dominates(s, nid) and all(an.dominates(s, q) for q in an.nodes[s].pred if q != d and q is not None and q >= 0)]
                l = self.labels(dn, dn.succ[hit[0]]) if len(hit) == 1 else None
                if l is not None:
                    conds.append((dn.cond[0], l))
            x = d
        return conds

    # --------------------------------------------------------------- guards
    def accept(self, g):
        """accept predicate(s) of a guard as canonical comparison (op, a, b) or (term, labels)"""
        c = self.norm(g.cond)
        acc = set(g.acc)
        return self.pred_of(c, acc)

    def pred_of(self, c, acc):
        while c.op == "un" and c.args[0] == "Not" and acc <= {0, 1}:
            c = c.args[1]
            acc = {1 - x for x in acc}
        if c.op == "bin" and c.args[0] in NEG:
            o, a, b = c.args
            if acc == {1}:
                return (o, a, b)
            if acc == {0}:
                return (NEG[o], a, b)
        if c.op == "disc":
            names = dict((int(x), y) for x, y in c.args[1])
            return ("is", c.args[0], frozenset(names.get(x, x) for x in acc))
        if acc == {1}:
            return ("true", c, None)
        if acc == {0}:
            return ("false", c, None)
        return ("in", c, frozenset(acc))


def _iatoms(q, t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "const":
        return
    if t.op in ("bin", "iop", "min", "max"):
        for a in t.args:
            if isinstance(a, Term):
                _iatoms(q, a, out, seen)
        return
    if t.op in ("cast", "conv"):
        _iatoms(q, t.args[0], out, seen)
        return
    out.add(t)


def ieval(q, t, env):
    if t in env:
        return env[t]
    op = t.op
    if op == "const":
        v = t.args[0]
        return int(v) if isinstance(v, (int, bool)) else None
    if op == "bin":
        a, b = ieval(q, t.args[1], env), ieval(q, t.args[2], env)
        if a is None or b is None:
            return None
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b,
                    "Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Lt": lambda: int(a < b), "Le": lambda: int(a <= b),
                    "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b), "Shl": lambda: a << b, "Shr": lambda: a >> b,
                    "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[t.args[0]]()
        except (KeyError, ZeroDivisionError, ValueError):
            return None
    if op in ("min", "max"):
        a, b = ieval(q, t.args[0], env), ieval(q, t.args[1], env)
        if a is None or b is None:
            return None
        return min(a, b) if op == "min" else max(a, b)
    if op == "iop":
        v = [ieval(q, x, env) for x in t.args[1:]]
        if any(x is None for x in v):
            return None
        n = t.args[0]
        try:
            return {"div_ceil": lambda: -(-v[0] // v[1]), "next_multiple_of": lambda: -(-v[0] // v[1]) * v[1],
                    "is_multiple_of": lambda: int(v[0] % v[1] == 0) if v[1] else int(v[0] == 0), "saturating_sub": lambda: max(v[0] - v[1], 0),
                    "saturating_add": lambda: v[0] + v[1], "wrapping_sub": lambda: v[0] - v[1], "wrapping_add": lambda: v[0] + v[1],
                    "wrapping_mul": lambda: v[0] * v[1], "abs_diff": lambda: abs(v[0] - v[1]), "pow": lambda: v[0] ** v[1],
                    "is_power_of_two": lambda: int(v[0] > 0 and v[0] & (v[0] - 1) == 0),
                    "next_power_of_two": lambda: 1 << max(0, (v[0] - 1).bit_length())}[n]()
        except (KeyError, ZeroDivisionError):
            return None
    if op == "un" and t.args[0] == "Not":
        a = ieval(q, t.args[1], env)
        return None if a is None else int(not a)
    if op in ("cast", "conv") and t.args[1] in NARROW:
        a = ieval(q, t.args[0], env)
        w = {"u8": 8, "u16": 16, "u32": 32}.get(t.args[1])
        return None if a is None or w is None else a & ((1 << w) - 1)
    return None


# ------------------------------------------------------------------ linear
def lin(q, t):
    """linear normal form {atom: coeff, None: const} or None"""
    t = q.norm(t)
    return _lin(q, t)


def _lin(q, t):
    if is_int_const(t) or (t.op == "const" and isinstance(t.args[0], bool)):
        return {None: int(t.args[0])}
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        a, b = _lin(q, t.args[1]), _lin(q, t.args[2])
        r = dict(a)
        s = 1 if t.args[0] == "Add" else -1
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v or k is None}
    if t.op == "bin" and t.args[0] == "Mul":
        a, b = _lin(q, t.args[1]), _lin(q, t.args[2])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}:
                c = x.get(None, 0)
                return {k: v * c for k, v in y.items() if v * c or k is None}
    return {t: 1, None: 0}


def lin_sub(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v and k is not None}, r.get(None, 0)


# -------------------------------------------------------------------- ring
def ring(q, t, depth=0):
    """polynomial normal form of a field/ring expression: {sorted tuple of atom terms: coeff}"""
    t = q.norm(t)
    if depth > 30:
        return {(t,): 1}
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        a, b = ring(q, t.args[1], depth + 1), ring(q, t.args[2], depth + 1)
        s = 1 if t.args[0] == "Add" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}
    if t.op == "bin" and t.args[0] == "Mul":
        a, b = ring(q, t.args[1], depth + 1), ring(q, t.args[2], depth + 1)
        r = {}
        if len(a) * len(b) > 400:
            return {(t,): 1}
        for (k1, v1), (k2, v2) in itertools.product(a.items(), b.items()):
            k = tuple(sorted(k1 + k2, key=lambda x: x.id))
            r[k] = r.get(k, 0) + v1 * v2
        return {k: v for k, v in r.items() if v}
    if t.op == "un" and t.args[0] == "Neg":
        return {k: -v for k, v in ring(q, t.args[1], depth + 1).items()}
    if t.op == "call":
        n = t.args[0].split("::")[-1]
        if n == "zero" and len(t.args) == 2:
            return {}
        if n == "one" and len(t.args) == 2:
            return {(): 1}
        if n == "square" and len(t.args) == 3:
            x = t.args[2]
            return ring(q, T("bin", "Mul", x, x), depth + 1)
        if n == "double" and len(t.args) == 3:
            x = t.args[2]
            return ring(q, T("bin", "Add", x, x), depth + 1)
    if t.op == "kconst":
        n = t.args[0].split("::")[-1]
        if n == "ZERO":
            return {}
        if n == "ONE":
            return {(): 1}
    if t.op == "conv" and t.args[0].op == "const" and isinstance(t.args[0].args[0], int):
        return {(): t.args[0].args[0]} if t.args[0].args[0] else {}
    return {(t,): 1}


def effects(q, t, root, depth=0):
    """element updates that turn the array value `root` into `t`:
    [("store", index, value) | ("loop", header, domain, [...])] or None"""
    an = q.an
    t = an.simp(t)
    if t is root:
        return []
    if depth > 12:
        return None
    if t.op == "store" and len(t.args[1]) == 1 and t.args[1][0][0] in ("idx", "el"):
        r = effects(q, t.args[0], root, depth + 1)
        if r is None:
            return None
        p = t.args[1][0]
        return r + [("store", p[1] if p[0] == "idx" else T("el", *p[1:]), t.args[2], t.args[0])]
    if t.op == "phi":
        lp = q.loop_phi(t)
        if lp is None:
            return None
        nid, init, step = lp
        init = {an.simp(x) for x in init}
        step = {an.simp(x) for x in step}
        if len(init) != 1:
            return None
        r = effects(q, init.pop(), root, depth + 1)
        if r is None:
            return None
        outs = [effects(q, s, t, depth + 1) for s in step]
        if None in outs or not outs:
            return None
        return r + [("loop", nid, q.loop_domain(nid), outs[0] if len(outs) == 1 else [("alt", outs)], t)]
    return None


def array_root(q, t, depth=0):
    """the initial value an array-valued term starts from"""
    an = q.an
    t = an.simp(t)
    while depth < 30:
        depth += 1
        if t.op == "store":
            t = an.simp(t.args[0])
        elif t.op == "phi":
            lp = q.loop_phi(t)
            if lp is None:
                return t
            init = {an.simp(x) for x in lp[1]}
            if len(init) != 1:
                return t
            t = init.pop()
        else:
            return t
    return t


def recur(q, ph):
    """loop-carried value: (init, step, header) with canonical terms, or None"""
    lp = q.loop_phi(ph) if ph.op == "phi" else None
    if lp is None:
        return None
    init = {q.an.simp(x) for x in lp[1]}
    step = {q.an.simp(x) for x in lp[2]}
    if len(init) != 1 or len(step) != 1:
        return None
    return init.pop(), step.pop(), lp[0]


def strip_sites(t, memo=None):
    """forget which iteration an element belongs to"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    memo[t] = t
    a = [strip_sites(x, memo) if isinstance(x, Term) else x for x in t.args]
    if t.op in ("elem", "idx"):
        a[1] = 0
    elif t.op == "ridx":
        a[2] = 0
    elif t.op == "map" and len(a) == 3:
        a[2] = 0
    r = T(t.op, *a)
    memo[t] = r
    return r


def grid(q, term, spec, classify, ranges, where=lambda e: True):
    """compare an extracted integer expression with the specified one.
    classify(atom) -> variable name; ranges: {name: iterable}. True / False / None (not closed)"""
    alts = expand(q, None, (), term)
    if len(alts) > 1:
        res = True
        for conds, v in alts:
            def possible(e):
                return where(e) and consistent(q, conds, lambda a: e.get(classify(a)))
            closed = all(classify(a) is not None for c, _ in conds for a in q.iatoms(c))
            r, why = grid(q, v, spec, classify, ranges, possible)
            if r is False and closed:
                return r, why
            if not r:
                res = None
        return res, "" if res else "not closed"
    term = q.norm(term)
    atoms = q.iatoms(term)
    roles = {}
    for a in atoms:
        n = classify(a)
        if n is None:
            return None, f"unclassified {pp(a, 4)}"
        roles[a] = n
    names = list(ranges)
    for vals in itertools.product(*[ranges[n] for n in names]):
        e = dict(zip(names, vals))
        if not where(e):
            continue
        env = {a: e[n] for a, n in roles.items()}
        v = ieval(q, term, env)
        if v is None:
            return None, "not closed"
        w = spec(e)
        ok = w(v) if callable(w) else v == w
        if not ok:
            return False, f"at {e} the expression {pp(term, 6)} is {v}" + ("" if callable(w) else f", specified {w}")
    return True, ""


def consistent(q, conds, env_of):
    """are the branch conditions possible under an assignment (unknown conditions are possible)"""
    for c, lab in conds:
        c = q.norm(c)
        env = {a: env_of(a) for a in q.iatoms(c)}
        if any(v is None for v in env.values()):
            continue
        v = ieval(q, c, env)
        if v is not None and (isinstance(lab, int) and v != lab or isinstance(lab, tuple) and lab[0] == "not" and v in lab[1]):
            return False
    return True


def expand(q, node, conds, v):
    """split an expression on a branchy (phi) subterm"""
    out = [(conds, q.norm(v))]
    for _ in range(4):
        nxt = []
        done = True
        for c, t in out:
            ph = [x for x in q.an.subterms(t, False) if x.op == "phi" and x.args[0] not in q.an.loops()]
            if not ph:
                nxt.append((c, t))
                continue
            done = False
            p = ph[0]
            alts = q.cases(node, p)
            if alts is None or len(alts) > 16:
                nxt.append((c, t))
                continue
            for c2, v2 in alts:
                nxt.append((c + tuple(c2), q.norm(replace(t, p, q.norm(v2)))))
        out = nxt
        if done:
            break
    return out


def replace(t, old, new, memo=None):
    memo = {} if memo is None else memo
    if t is old:
        return new
    if not isinstance(t, Term) or t.op == "phi":
        return t
    if t in memo:
        return memo[t]
    memo[t] = t
    a = [replace(x, old, new, memo) if isinstance(x, Term) else x for x in t.args]
    r = t if all(x is y for x, y in zip(a, t.args)) else T(t.op, *a)
    memo[t] = r
    return r


def find(q, t, pred, through_phi=True):
    """subterms (canonical) satisfying pred"""
    out = []
    for x in q.an.subterms(t, through_phi):
        if pred(x):
            out.append(x)
    return out
