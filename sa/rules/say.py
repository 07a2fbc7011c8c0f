"""Values as canonical text: group and field expressions as polynomials, sequences taken apart, compared with texts written down in the rules."""
import re
from common import *
from algebra import *

LIFT = ("into_affine", "into_group", "from", "into", "clone", "cloned", "copied", "as_ref", "as_slice", "to_vec", "iter", "deref", "borrow", "unwrap", "expect", "collect", "to_owned", "into_inner",
        "as_mut", "borrow_mut", "as_bytes", "new_uninit", "into_boxed_slice", "as_mut_slice", "into_iter")
SEQ = ("push", "ext", "chain", "concat", "map", "flatmap", "take", "fill", "repeat", "resize", "trunc")


class Say(Alg):
    sized = None    # (name, pattern): lists that match have the length that is named
    def __init__(self, prog, q, fn, names=None, lift=LIFT, vocab=None, extra=None, cs=None):
        super().__init__(q, {}, lambda al, t: self.rw(t))
        self.building = []  # lists whose elements are being read: inside, what has been built so far
        self.fn, self.lift, self.vocab = fn, lift, vocab
        self.extra = extra
        self.cs, self.states = cs, {}
        self.prevs, self.frames = {}, {}
        for i, n in (names or {}).items():
            try:
                self.names[arg(fn, i)] = n
            except Exception:
                pass
        self.prog = prog

    def name(self, t):
        s = self.q.an.simp(t)
        if s.op == "phi":
            r = self.rw(s)
            if r is None:
                r = self.loop(s)
        else:
            r = super().name(t)
        return ptext(r) if isinstance(r, dict) else r

    def state(self, t, depth=0):
        """a state of the circuit under construction"""
        if self.cs is None or not isinstance(t, Term):
            return False
        t = self.q.an.simp(t)
        while t.op == "out" and t.args[0].op == "call" and isinstance(t.args[1], int) and 2 + t.args[1] < len(t.args[0].args):
            t = self.q.an.simp(t.args[0].args[2 + t.args[1]])
        if t is self.cs:
            return True
        if t.op == "phi" and depth < 40:
            if t in self.states:
                return self.states[t]
            self.states[t] = True
            r = all(self.state(x, depth + 1) for x in self.q.an.phis.get(t, {}).values() if x.op != "undef")
            self.states[t] = r
            return r
        return False

    def args(self, xs):
        return ",".join(self.text(x) for x in xs if isinstance(x, Term) and not self.state(x))

    def sub(self, site, letter=None):
        old, oldm = dict(self.sites), self.memo
        depth = len(set(self.sites.values()))
        self.sites[site] = letter or "ijklm"[min(depth, 4)]
        self.memo = {}
        return old, oldm

    def rw(self, t):
        q = self.q
        if t in self.names:
            return self.names[t]
        if self.extra is not None:
            r = self.extra(self, t)
            if r is not None:
                return r
        if is_int_const(t):
            return {(): int(t.args[0])} if int(t.args[0]) else {}
        if t.op == "collectR":
            return f"every({self.text(t.args[0])})"
        if t.op == "agg":
            if t.args[0] in ("array", "tuple"):
                if t.args[0] == "tuple":
                    return "(" + ", ".join(self.text(x) for x in t.args[3:]) + ")"
            else:
                n = str(t.args[1] or t.args[0]).split("::")[-1]
                xs = [self.text(x) for x in t.args[3:]]
                fs = self.fields(t)
                if xs and None not in fs and all(x.endswith("." + k) for x, k in zip(xs, fs)) and len({x[:-len(k) - 1] for x, k in zip(xs, fs)}) == 1:
                    return xs[0][:-len(fs[0]) - 1]
                return f"{n}({', '.join(f'{k}={x}' if k is not None else x for k, x in zip(fs, xs))})"
        if t.op == "take" and not self.isseq(t):
            return f"{self.name(t.args[0])}[:{self.text(t.args[1])}]"
        if t.op in ("min", "max"):
            return f"{t.op}({','.join(sorted(self.text(x) for x in t.args if isinstance(x, Term)))})"
        if t.op in SEQ or t.op == "agg" and t.args[0] == "array" or t.op == "call" and nm(t) in ("once", "empty", "flatten", "repeat_n", "with_capacity", "new") and self.isseq(t):
            try:
                return "[" + ", ".join(self.items(t)) + "]"
            except Unknown:
                if t.op in ("push", "ext") and self.wild(t.args[0]):
                    return f"[*{self.text(t.args[0])}, {'*' if t.op == 'ext' else ''}{self.text(t.args[1])}]"
                if t.op not in ("push", "trunc") or not self.edited(t):
                    raise
        if t.op == "phi" and t in self.prevs:
            return self.prevs[t]
        if t.op == "phi" and t in self.building:
            return "sofar"
        if self.wild(t):
            return self.whiles(t)
        if t.op == "phi":
            its = q.seq(t)
            if its and its[0][0] != "?" and not (len(its) == 1 and its[0][0] == "all"):
                self.building.append(t)
                try:
                    return "[" + ", ".join(self.parts(its)) + "]"
                except Unknown:
                    if not self.edited(t):
                        raise
                finally:
                    self.building.pop()
        if t.op in ("store", "push", "trunc") or t.op == "phi" and self.edited(t):
            return self.edits(t)
        if t.op == "slice":
            lo, hi = self.text(t.args[1]), q.norm(t.args[2])
            return f"{self.name(t.args[0])}[{'' if lo == '0' else lo}:{'' if hi.op == 'end' else self.text(hi)}]"
        if t.op == "skip":
            return f"{self.name(t.args[0])}[{self.text(t.args[1])}:]"
        if t.op == "idx":
            return self.letter(t.args[1])
        if t.op == "ridx":
            return nadd(self.poly(t.args[0]), {(self.letter(t.args[2]),): 1})
        if t.op in ("elem", "index"):
            x = q.an.simp(t.args[0])
            if x.op == "store" and len(x.args[1]) == 1 and x.args[1][0][0] == {"elem": "el", "index": "idx"}[t.op] and x.args[1][0][1] == t.args[1]:
                return self.poly(x.args[2])
            if t.op == "index" and x.op == "store" and is_int_const(q.norm(t.args[1])) and len(x.args[1]) >= 1 and x.args[1][0][0] == "idx" and is_int_const(q.norm(x.args[1][0][1])):
                k, l = (int(q.norm(y).args[0]) for y in (t.args[1], x.args[1][0][1]))
                if k != l:  # another entry was written
                    return self.poly(T("index", x.args[0], t.args[1]))
                if len(x.args[1]) == 1:
                    return self.poly(x.args[2])
        if t.op == "elem":
            x = q.norm(t.args[0])
            return None if x.op in ("map", "zip", "enumerate") else f"{self.name(x)}[{self.letter(t.args[1])}]"
        if t.op == "index":
            x = self.name(t.args[0])
            i = self.text(t.args[1])
            m = re.fullmatch(r"-(\d+) \+ len\((.*)\)", i)
            return f"{x}[{'-' + m[1] if m and m[2] == x else i}]"
        if t.op == "un" and t.args[0] == "Not":
            return f"(not {self.text(t.args[1])})"
        if t.op == "fromend":
            return nadd({}, self.poly(t.args[0]), -1)
        if t.op == "call":
            n = nm(t)
            if n in self.lift and len(t.args) == 3:
                return self.poly(t.args[2])
            if n in ("zero", "one", "default") and len(t.args) == 2:
                return {(): 1} if n == "one" else {}
            if n in ("mul", "mul_bigint") and len(t.args) == 4:
                return nmul(self.poly(t.args[2]), self.poly(t.args[3]))
            if n == "pairing" and len(t.args) == 4:
                return nmul({("e",): 1}, nmul(self.poly(t.args[2]), self.poly(t.args[3])))
            if n in ("neg",) and len(t.args) == 3:
                return nadd({}, self.poly(t.args[2]), -1)
            if self.vocab is not None and n not in self.vocab:
                raise Unknown(f"call of {n}")
            if n == "sum" and len(t.args) == 3:
                its = q.seq(t.args[2])
                if len(its) == 1 and its[0][0] == "each":
                    return self.total([its[0]])
            if n in ("multi_pairing", "multi_miller_loop") and len(t.args) == 4:
                return self.pairs(q.seq(t.args[2]), q.seq(t.args[3]))
            if n == "final_exponentiation" and len(t.args) == 3:
                return self.poly(t.args[2])
            return f"{n}({self.args(t.args[2:])})"
        if t.op == "out" and t.args[0].op == "call" and isinstance(t.args[1], int):
            c = t.args[0]
            if nm(c) in ("double_in_place", "square_in_place", "neg_in_place") and len(c.args) == 3:
                x = self.poly(c.args[2])
                return nmul(x, x) if nm(c)[0] == "s" else nmul({(): 2 if nm(c)[0] == "d" else -1}, x)
            if self.vocab is not None and nm(c) not in self.vocab:
                raise Unknown(f"effect of {nm(c)}")
            return f"{nm(c)}'{t.args[1]}({self.args(c.args[2:])})"
        if t.op in ("conv", "cast"):
            return self.poly(t.args[0])
        if t.op == "field":
            x = q.norm(t.args[0])
            if x.op == "as" and x.args[1] in ("Ok", "Some"):
                return self.poly(x.args[0])
            if x.op == "as":
                return f"{self.name(x.args[0])}.{x.args[1]}"
            n = self.name(x)
            if x.op in ("conv", "cast") or x.op == "call" and nm(x) in self.lift:
                n = f"aff({n})" if t.args[1] in ("x", "y") else n
            return f"{n}.{t.args[1]}"
        if t.op == "zip":
            return f"zip({','.join(self.text(x) for x in t.args if isinstance(x, Term))})"
        if t.op == "enumerate" or t.op == "enum":
            return f"enumerate({self.text(t.args[0])})"
        if t.op == "len":
            return f"len({self.text(t.args[0])})"
        if t.op == "itermut" and q.an.simp(t.args[0]).op == "mref":
            c, l, pj = q.an.simp(t.args[0]).args[:3]
            own = [v for k, v in self.prevs.items() if k.op == "phi" and k.args[1:3] == (c, l) and v.startswith("it")]
            if own:
                return own[0] + self.place(pj)
        if t.op == "alt":
            return f"alt({self.args(t.args)})"
        if t.op == "chain":
            return f"chain({self.args(t.args)})"
        if t.op in ("chunks", "chunksx", "windows", "rev", "filter", "takewhile", "skipwhile"):
            return f"{t.op}({','.join(self.text(x) for x in t.args if isinstance(x, Term))})"
        if t.op == "iop" and t.args[0] == "next_multiple_of":
            return f"{t.args[0]}({self.args(t.args[1:])})"
        if t.op == "str" or t.op == "const":
            return repr(t.args[0])
        return None

    def loop(self, ph):
        """sums and products as before, anything else as a fold: fold(list: start; step) with the value so far written p0, p1, ..."""
        if ph in self.prevs:
            return {(self.prevs[ph],): 1}
        q = self.q
        r = recur(q, ph)
        if r is None and ph.args[0] not in q.an.loops():
            vs = [x for _, x in self.edges(ph)]
            if len({self.text(x) for x in vs}) == 1:
                return self.poly(vs[0])
            return {(self.choice(ph),): 1}
        if r is None:
            return super().loop(ph)
        init, step, h = r
        self.prevs[ph] = f"p{len(self.prevs)}"
        me = self.prevs[ph]
        try:
            direct = any(x is ph for m in ring(q, step) for x in m)
            if direct:
                try:
                    return super().loop(ph)
                except Unknown as e:
                    if "neither a sum nor" not in str(e):
                        raise
            d = q.loop_domain(h)
            if d is None:
                raise Unknown("a loop that does not go over a list")
            inner = h in self.active or self.inside(h)
            old, oldm = dict(self.sites), self.memo
            l = "ijklm"[min(len(set(self.sites.values())), 4)]
            for x in self.site(h):
                self.sites.setdefault(x, l)
            self.memo = {}
            self.active.append(h)
            try:
                body = self.text(step)
                dom = self.extent(d)
            finally:
                self.active.pop()
                self.sites, self.memo = old, oldm
        finally:
            del self.prevs[ph]
        return {(f"{'runfold' if inner else 'fold'}({dom}: {self.text(init)}; {body})",): 1}

    def wild(self, t):
        """a value of a loop that does not go over a list, and is not one that only fills up a list"""
        q = self.q
        t = q.an.simp(t)
        if t.op != "phi" or t.args[0] not in q.an.loops() or q.loop_domain(t.args[0]) is not None:
            return False
        body = q.an.loops()[t.args[0]][0]
        steps = {x for p, x in self.edges(t) if p in body}
        try:
            self.filled(t, t.args[0], steps.pop()) if len(steps) == 1 else None
            return len(steps) > 0
        except Unknown:
            return True

    def whiles(self, ph):
        """while(w0; w0: start -> step; ...; the conditions for going on), w0, w1, ... the values that change"""
        q, h = self.q, ph.args[0]
        ph = q.an.simp(ph)
        if h in self.frames:
            fr = self.frames[h]
            return fr.setdefault(ph, f"w{len(fr)}" + "'" * (list(self.frames).index(h)))
        body = q.an.loops()[h][0]
        oldm, self.memo = self.memo, {}
        fr = self.frames[h] = {}
        me = self.whiles(ph)
        try:
            stay = sorted(self.pred(q.pred_of(q.norm(c), l if isinstance(l, (set, frozenset)) else {l})) for c, l, _ in q.exit_conds(h) if not self.fails(h, _))
            rows, n = [], 0
            while n < len(fr):
                x, w = list(fr.items())[n]
                n += 1
                steps = {self.text(v) for p, v in self.edges(x) if p in body}
                if len(steps) != 1:
                    raise Unknown("a loop with several steps")
                outer = self.frames.pop(h)
                mm, self.memo = self.memo, {}
                try:
                    inits = {self.text(v) for p, v in self.edges(x) if p not in body}
                finally:
                    self.frames[h] = outer
                    self.memo = mm
                if len(inits) != 1:
                    raise Unknown("a loop with several starts")
                rows.append(f"{w}: {inits.pop()} -> {steps.pop()}")
        finally:
            del self.frames[h]
            self.memo = oldm
        return f"while({me}; {'; '.join(rows)}; {' & '.join(stay)})"

    def fails(self, h, n):
        """the way out of loop h at node n only leads to errors"""
        body = self.q.an.loops()[h][0]
        ends = {e.id for e in self.q.an.exits() if not rejects(self.q, e)}
        return not any(s not in body and reaches(self.q.an, s, ends) for s in n.succ)

    def choice(self, ph):
        """the values of a join with the conditions they come from"""
        q, out = self.q, {}
        for p, x in self.edges(ph):
            v = self.text(x)
            for cs in q.path_conds(p, ph.args[0]):
                out.setdefault(v, set()).add(self.conds(cs))
        if len(out) == 1:
            return next(iter(out))
        every = frozenset.intersection(*[c for cs in out.values() for c in cs])
        show = lambda cs: " or ".join(sorted(" & ".join(sorted(c - every)) for c in cs))
        return "either(" + " | ".join(sorted(f"{show(c)} -> {v}" for v, c in out.items())) + ")"

    def conds(self, cs):
        q, ps = self.q, set()
        for c, l in cs:
            c = q.norm(c)
            if c.op == "more" or c.op == "disc" and q.norm(c.args[0]).op == "optelem":
                continue
            p = q.pred_of(c, self.accepted(c, l))
            if p[0] == "is" and set(map(str, p[2])) <= {"Ok", "Continue"}:
                continue  # the other way is the error's
            ps.add(self.pred(p))
        return frozenset(ps)

    # ---- values changed in place
    def before(self, t):
        """what this step was applied to, for a change in place; None at the start"""
        q = self.q
        if t.op in ("store", "push", "trunc"):
            return q.an.simp(t.args[0])
        if t.op == "out" and t.args[0].op == "call" and isinstance(t.args[1], int) and 2 + t.args[1] < len(t.args[0].args):
            return q.an.simp(t.args[0].args[2 + t.args[1]])
        if t.op == "phi" and self.wild(t):
            return None
        if t.op == "phi" and t.args[0] in q.an.loops():
            body = q.an.loops()[t.args[0]][0]
            xs = {x for p, x in self.edges(t) if p not in body}
            return xs.pop() if len(xs) == 1 else None
        if t.op == "phi":
            rs = {self.root(x) for _, x in self.edges(t)}
            return rs.pop() if len(rs) == 1 else None
        return None

    def edges(self, t):
        return [(p, self.q.an.simp(v)) for p, v in self.q.an.phis.get(t, {}).items() if v.op != "undef"]

    def root(self, t, n=0):
        t = self.q.an.simp(t)
        while n < 80:
            if t in self.prevs:
                return t
            x = self.before(t)
            if x is None:
                x = self.q.norm(t)
                if x is t or x.op not in ("store", "push", "trunc", "phi", "out"):
                    return t
            t, n = x, n + 1
        return t

    def edited(self, t):
        """a loop or a branch that changes a value in place"""
        seen, stk = set(), [t]
        while stk:
            x = self.q.an.simp(stk.pop())
            if x in seen or len(seen) > 60:
                continue
            seen.add(x)
            if x.op in ("store", "push", "trunc"):
                return True
            if x.op == "phi":
                stk += [v for _, v in self.edges(x)]
            elif x.op == "out":
                y = self.before(x)
                if y is None:
                    continue
                stk.append(y)
        return False

    def edits(self, t):
        t = self.q.an.simp(t)
        r = self.root(t)
        if r is t:
            raise Unknown(pp(t, 3))
        hs = entries(self.history(t, r, 0))
        if len(hs) == 1 and hs[0].startswith("pad("):
            x = self.text(r)
            return f"[{x[1:-1] if x[:1] == '[' else '*' + x}, {hs[0]}]"
        return f"{self.text(r)}{{{'; '.join(hs)}}}"

    def history(self, t, stop, depth):
        q = self.q
        t = q.an.simp(t)
        if t is stop:
            return []
        if depth > 60:
            raise Unknown("a long history")
        if t.op == "store":
            return self.history(t.args[0], stop, depth + 1) + [f"{self.place(t.args[1])} := {self.text(t.args[2])}"]
        if t.op == "push":
            return self.history(t.args[0], stop, depth + 1) + [f"push {self.text(t.args[1])}"]
        if t.op == "trunc":
            return self.history(t.args[0], stop, depth + 1) + [f"cut {self.text(t.args[1])}"]
        b = self.before(t)
        if b is None:
            n = q.norm(t)
            if n is not t:
                return self.history(n, stop, depth + 1)
            if t.op != "phi" or t.args[0] in q.an.loops() or not any(self.root(x) is stop or x is stop for _, x in self.edges(t)):
                raise Unknown(pp(t, 3))
        if t.op == "out":
            c = t.args[0]
            return self.history(b, stop, depth + 1) + [f"{nm(c)}({self.args(x for i, x in enumerate(c.args[2:]) if i != t.args[1])})"]
        h = t.args[0]
        if h in q.an.loops():
            pre = self.history(b, stop, depth + 1)
            body = q.an.loops()[h][0]
            steps = {x for p, x in self.edges(t) if p in body}
            if len(steps) != 1:
                raise Unknown("a loop with several steps")
            step = steps.pop()
            if step is t:
                return pre
            d = q.loop_domain(h)
            if d is None:
                return pre + [self.filled(t, h, step)]
            old, oldm, oldp = dict(self.sites), self.memo, dict(self.prevs)
            try:
                l = "ijklm"[min(len(set(self.sites.values())), 4)]
                self.memo = {}
                self.prevs[t] = "it" + "'" * sum(1 for x in self.prevs.values() if x.startswith("it"))
                dom = self.extent(d)
                for x in self.site(h):
                    self.sites.setdefault(x, l)
                self.memo = {}
                return pre + [f"for {l} in {dom} {{{'; '.join(self.history(step, t, 0))}}}"]
            finally:
                self.sites, self.memo, self.prevs = old, oldm, oldp
        alts = []
        for p, x in self.edges(t):
            hs = [f":= {self.text(x)}"] if b is None and x is not stop and self.root(x) is not stop else self.history(x, stop, depth + 1)
            for cs in q.path_conds(p, h):
                ps = " & ".join(sorted(self.conds(cs)))
                alts.append(f"if {ps} {{{'; '.join(hs)}}}")
        return [" | ".join(sorted(set(alts)))]

    def filled(self, t, h, step):
        """while the list is shorter than n, push x"""
        q = self.q
        cs = q.exit_conds(h)
        if len(cs) == 1 and step.op == "push" and q.an.simp(step.args[0]) is t:
            c, stay, n = cs[0]
            p = q.pred_of(q.norm(c), stay if isinstance(stay, (set, frozenset)) else {stay})
            for o, a, b in (p, ({"Gt": "Lt", "Ge": "Le"}.get(p[0]), p[2], p[1])):
                if o == "Lt" and isinstance(a, Term) and a.op == "len" and q.an.simp(a.args[0]) is t:
                    return f"pad({self.text(step.args[1])} to {self.text(b)})"
        raise Unknown("a loop of unknown extent")

    def accepted(self, c, l):
        every = {int(k) for k, _ in c.args[1]} if c.op == "disc" else {0, 1}
        return every - set(l[1]) if isinstance(l, tuple) else {l}

    def place(self, pj):
        s = ""
        for x in pj:
            if x[0] == "f":
                s += f".{x[-1]}"
            elif x[0] == "el":
                s += f"[{self.letter(x[1])}]"
            elif x[0] == "idx":
                s += f"[{self.text(x[1])}]"
            elif x[0] == "rng":
                s += f"[{self.text(x[1])}:{'' if isinstance(x[2], Term) and x[2].op == 'end' else self.text(x[2])}]"
            elif x[0] == "ch":
                s += f":{x[1]}({self.text(x[2])})"
            elif x[0] != "d":
                raise Unknown("a place")
        return s

    def total(self, parts):
        """sum over the lists of the product of their entries"""
        old = dict(self.sites), self.memo
        l = "ijklm"[min(len(set(self.sites.values())), 4)]
        try:
            for p in parts:
                self.sites[p[3]] = l
            self.memo = {}
            b = {(): 1} if len(parts) == 1 else {("e",): 1}
            for p in parts:
                b = nmul(b, self.poly(p[2]))
        finally:
            self.sites, self.memo = old
        return f"sum({'&'.join(sorted({self.extent(p[1]) for p in parts}))}: {ptext(b)})"

    def pairs(self, a, b):
        if len(a) != len(b):
            return "pairing of lists of different lengths"
        r = {}
        for x, y in zip(a, b):
            if x[0] == "one" and y[0] == "one":
                r = nadd(r, nmul({("e",): 1}, nmul(self.poly(x[1]), self.poly(y[1]))))
            elif x[0] == "each" and y[0] == "each":
                r = nadd(r, {(self.total([x, y]),): 1})
            else:
                raise Unknown("a pairing of lists")
        return r

    def isseq(self, t):
        s = self.q.seq(t)
        return not (len(s) == 1 and s[0][0] in ("all", "?"))

    def fields(self, t):
        xs = t.args[3:]
        for a in (self.prog.adtc.get((self.fn.crate, t.args[0])), self.prog.adts.get(t.args[0])) if self.prog is not None else ():
            for v in (a or {}).get("variants", ()):
                if (v["name"] == t.args[1] or len(a["variants"]) == 1) and len(v["fields"]) == len(xs):
                    fs = [f["name"] if isinstance(f, dict) else f[0] for f in v["fields"]]
                    return [None if str(x).isdigit() else x for x in fs]
        return [None] * len(xs)

    def items(self, t):
        return self.parts(self.q.seq(t))

    def parts(self, its):
        out = []
        for p in its:
            if p[0] == "one":
                out.append(self.text(p[1]))
            elif p[0] == "all":
                n = nm(p[1])
                if n in ("with_capacity", "new", "default") :
                    continue
                x = self.text(p[1])
                if x.startswith("[") and x.endswith("]"):
                    out += [x[1:-1]] if x != "[]" else []
                else:
                    out.append("*" + x)
            elif p[0] == "each":
                old = self.sub(p[3])
                try:
                    l = self.letter(p[3])
                    b = self.text(p[2])
                finally:
                    self.sites, self.memo = old
                d = self.extent(p[1])
                out.append("*" + d if b == f"{d}[{l}]" else f"{{{b} for {l} in {d}}}")
            elif p[0] == "eachseq":
                old = self.sub(p[3])
                try:
                    l = self.letter(p[3])
                    b = self.parts(p[2])
                finally:
                    self.sites, self.memo = old
                out.append(f"{{{', '.join(b)} for {l} in {self.extent(p[1])}}}")
            elif p[0] == "loop":
                if p[1] is None:
                    raise Unknown("a loop of unknown extent")
                old, oldm = dict(self.sites), self.memo
                l = "ijklm"[min(len(set(self.sites.values())), 4)]
                for s in self.site(p[3]):
                    self.sites[s] = l
                self.memo = {}
                try:
                    b = self.parts(p[2])
                finally:
                    self.sites, self.memo = old, oldm
                dt = self.extent(p[1])
                out.append("*" + dt if b == [f"{dt}[{l}]"] else f"{{{', '.join(b)} for {l} in {dt}}}")
            elif p[0] == "rep":
                out.append(f"{{{self.text(p[1])} x {self.text(p[2])}}}")
            elif p[0] == "padto":
                out.append(f"pad({self.text(p[2])} to {self.text(p[1])})")
            elif p[0] == "trunc":
                out.append(f"trunc([{', '.join(self.parts(p[1]))}] to {self.text(p[2])})")
            else:
                raise Unknown("a sequence: " + pp(p[1], 4) if len(p) > 1 and isinstance(p[1], Term) else "a sequence")
        return out

    def extent(self, d):
        """a list as far as how often it is gone through is concerned"""
        e = self._extent(d)
        if self.sized:
            n, r = self.sized
            e = "&".join(sorted({n if re.fullmatch(r, x) else x for x in e.split("&")}))
        return e

    def dom(self, d):
        r = [self._extent(d)] if self.q.norm(d).op == "stepby" else super().dom(d)
        return sorted({self.sized[0] if re.fullmatch(self.sized[1], x) else x for x in r}) if self.sized else r

    def _extent(self, d):
        d = self.q.norm(d)
        if d.op == "agg" and str(d.args[0]).split("::")[-1] == "Range":
            lo, hi = self.text(d.args[3]), self.q.norm(d.args[4])
            if lo == "0" and hi.op == "len":
                return self.text(hi.args[0])
            return f"{lo}..{self.text(hi)}"
        if d.op == "rangei":
            return f"{self.text(d.args[0])}..{self.text(fold_bin('Add', self.q.norm(d.args[1]), const(1)))}"
        if d.op in ("enumerate", "enum"):
            return self._extent(d.args[0])
        if d.op == "map":
            return self._extent(d.args[0])
        if d.op == "stepby":
            return f"{self._extent(d.args[0])}:{self.text(d.args[1])}"
        if d.op == "zip":
            return "&".join(sorted({y for x in d.args if isinstance(x, Term) for y in self._extent(x).split("&")}))
        return self.text(d)

    # ---- predicates
    def differ(self, p, o):
        p = {m: c for m, c in p.items() if m != ("PairingOutput(1)",)}
        ms = sorted(p)
        if ms and p[ms[-1]] < 0:
            p = {m: -c for m, c in p.items()}
        if len(p) == 2 and abs(p.get((), 0)) == 1 and any(len(m) == 1 and m[0].endswith(" Rem 2)") and p[()] == -p[m] for m in p):
            p, o = {m: 1 for m in p if m}, "Ne" if o == "Eq" else "Eq"  # odd
        return f"{ptext(p)} {'==' if o == 'Eq' else '!='} 0"

    def pred(self, p):
        """(text, canonical) of a predicate"""
        o, a, b = p
        if o in ("Eq", "Ne"):
            return self.differ(nadd(self.poly(a), self.poly(b), -1), o)
        if o in ("Lt", "Le", "Gt", "Ge"):
            x, y = self.text(a), self.text(b)
            if o in ("Gt", "Ge"):
                x, y, o = y, x, {"Gt": "Lt", "Ge": "Le"}[o]
            return f"{x} {'<' if o == 'Lt' else '<='} {y}"
        if o == "is":
            return f"{self.text(a)} is {'/'.join(sorted(map(str, b)))}"
        if o in ("true", "false") and nm(a) in ("is_zero", "is_one", "is_empty") and len(a.args) == 3:
            p = self.poly(a.args[2]) if nm(a) == "is_zero" else nadd(self.poly(a.args[2]), {(): 1}, -1) if nm(a) == "is_one" else {(f"len({self.text(a.args[2])})",): 1}
            return self.differ(p, "Eq" if o == "true" else "Ne")
        if o in ("true", "false"):
            return ("" if o == "true" else "not ") + self.text(a)
        if o == "in":
            return f"{self.text(a)} in {{{','.join(map(str, sorted(b)))}}}"
        raise Unknown(o)


def entries(hs):
    """entries of a list written one after the other, in the order of the list"""
    out, run = [], {}
    for h in hs + [None]:
        m = h is not None and re.match(r"\[(\d+)\] := ", h)
        if m:
            run[int(m[1])] = h
        else:
            out += [run[k] for k in sorted(run)] + ([h] if h is not None else [])
            run = {}
    return out


def close(s, i):
    """where the bracket at i is closed"""
    d = 0
    for j in range(i, len(s)):
        if s[j] in "([{":
            d += 1
        elif s[j] in ")]}":
            d -= 1
            if d == 0:
                return j
    return len(s)


def parts(s, sep=", "):
    """the parts of a list"""
    out, d, b = [], 0, 0
    for i, c in enumerate(s):
        d += (c in "([{") - (c in ")]}")
        if d == 0 and s.startswith(sep, i):
            out.append(s[b:i])
            b = i + len(sep)
    return out + [s[b:]]


def whole(n):
    """lists of n entries read the same whether they are filled in place, collected, or written out; an entry of a collected list is what it was collected from"""
    fill = re.compile(r"\[\{[^{}]* x %s\}\]\{for (\w) in %s \{\[\1\] := " % (n, n))
    put = lambda t, l, i: re.sub(r"\b%s\b" % l, lambda _: i, t)

    def f(s):
        k = 0
        while m := fill.search(s, k):
            a = m.start() + s[m.start():].index("]{") + 1
            e = close(s, a)
            body = s[m.end():e - 1]
            if s[e - 1] != "}" or len(parts(body, ";")) > 1 or re.search(r"\bit\b", body):
                k = m.end()
            else:
                s = s[:m.start()] + "[{" + body + " for " + m[1] + " in " + n + "}]" + s[e + 1:]
        i = len(s)
        while (i := s.rfind("[", 0, i)) >= 0:
            e = close(s, i)
            ps = parts(s[i + 1:e])
            if len(ps) == int(n) and all(p.endswith(f"[{j}]") and p[:-3] == ps[0][:-3] for j, p in enumerate(ps)) and ps[0][:-3]:
                s = s[:i] + ps[0][:-3] + s[e + 1:]
                continue
            if len(ps) != 1 or not ps[0].startswith("{"):
                continue
            m = re.match(r"(.*) for (\w) in (.*)$", ps[0][1:-1])
            if not m or " for " in m[3] and len(parts(m[3], " for ")) > 1:
                continue
            if s[e + 1:e + 2] == "[":
                j = close(s, e + 1)
                if ":" not in s[e + 2:j]:
                    s = s[:i] + put(m[1], m[2], s[e + 2:j]) + s[j + 1:]
            elif s[:i].endswith(" in "):
                s = s[:i] + m[3] + s[e + 1:]
            elif m[3] == n:
                s = s[:i] + "[" + ", ".join(put(m[1], m[2], str(j)) for j in range(int(n))) + "]" + s[e + 1:]
        return s
    return f


def kinds(s):
    """the kinds of loops a text has; the while loops with the number of values they change"""
    return {f"while{len(re.findall(chr(92) + 'bw' + chr(92) + 'd+: ', s)) // max(1, s.count('while('))}"} - {"while0"} | {k for k, r in (("edit", "] := "), ("all", "for i in "), ("fold", "fold("), ("sum", "sum("), ("prod", "prod(")) if r in s}


def subterms(t):
    seen, stk = set(), [t]
    while stk:
        x = stk.pop()
        if isinstance(x, Term) and x not in seen:
            seen.add(x)
            stk += list(x.args)
    return seen


def reaches(an, a, ends):
    seen, stk = set(), [a]
    while stk:
        x = stk.pop()
        if x in ends:
            return True
        if x not in seen:
            seen.add(x)
            stk += list(an.nodes[x].succ)
    return False


class Rule:
    """one function of the repository and the texts of what it does"""
    def __init__(self, rep, prog, crate, name, head, opaque=(), names=None, pick=None, lift=LIFT, vocab=None, extra=None, trait=None, cs=None, subst=None):
        self.rep, self.prog = rep, prog
        fs = prog.find(crate, name, head)
        fs = fs if isinstance(fs, list) else [fs] if fs else []
        fs = [f for f in fs if (pick is None or pick == "=" + f.path or pick in f.path or pick in f.file) and (trait is None or trait in (f.trait or ""))]
        self.ok = len(fs) == 1
        if not fs:
            rep.verdict(False, "anchor", f"{crate}::{head}::{name}", "the function this rule is about is missing")
            return
        if not self.ok:
            rep.verdict(None, "anchor", f"{crate}::{head}::{name}", f"{len(fs)} functions match")
            return
        f = self.fn = fs[0]
        self.an, self.q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opaque or g.intrait), subst=subst)
        self.w = f.path
        self.say = Say(prog, self.q, f, None, lift, vocab, extra, arg(f, cs) if cs else None)
        for i, n in enumerate(names.split() if names is not None else [f.locals[i][1] or f"_{i}" for i in range(1, f.argc + 1)], 1):
            if i <= f.argc:
                self.say.names[arg(f, i)] = n
        self.exits = self.an.exits()
        self.oks = [n for n in self.exits if not rejects(self.q, n)]

    def cases(self, split=False):
        """(conditions, value) of the accepting results"""
        out = []
        for n in self.oks:
            for c, v in outcomes(self.q, n, split=split):
                if not (v.op == "agg" and v.args[1] in ("Err",)):
                    out.append((c, v))
        return out

    def value(self, facet, wants, msg, of=None, stops=()):
        """every accepting result reads as one of wants"""
        wants = [wants] if isinstance(wants, str) else wants
        vs = [v for _, v in self.cases()]
        if not vs:
            return self.rep.verdict(False, facet, self.w, f"{msg}: never returns")
        for v in vs:
            if of is not None:
                v = of(v)
            try:
                got = self.say.text(v)
            except Unknown as ex:
                self.rep.verdict(None, facet, self.w, f"{msg}: {ex}")
                continue
            self.judge(facet, got, wants, msg)
        self.stop(facet, stops, msg)

    def casewise(self, facet, table, msg):
        """every accepting result is one of the table, under one of its conditions; table: {text: [conditions] or None}"""
        seen = set()
        for conds, v in self.cases(True):
            try:
                got = self.say.text(v)
            except Unknown as ex:
                self.rep.verdict(None, facet, self.w, f"{msg}: {ex}")
                continue
            if got not in table:
                self.rep.verdict(False, facet, self.w, f"{msg}: found {got[:600]}, expected one of {sorted(table)}")
                continue
            seen.add(got)
            ps, q = [], self.q
            for c, l in conds:
                c = q.norm(c)
                try:
                    ps.append(self.say.pred(q.pred_of(c, self.say.accepted(c, l))))
                except Unknown:
                    ps.append(None)
            ok = table[got] is None or any(p in table[got] for p in ps)
            self.rep.verdict(True if ok else None if None in ps else False, facet, self.w, f"{msg}: {got[:300]} when {ps}, expected {table[got]}")
        self.rep.verdict(seen == set(table), facet, self.w, f"{msg}: never {sorted(set(table) - seen)}")

    def after(self, facet, i, wants, msg):
        """what argument i is afterwards"""
        wants = [wants] if isinstance(wants, str) else wants
        from common import final
        for n in self.oks:
            t = final(n, i)
            if t is None:
                self.rep.verdict(None, facet, self.w, f"{msg}: not an argument that can change")
                continue
            try:
                if self.say.text(self.q.norm(t)) in wants:
                    self.rep.verdict(True, facet, self.w, msg)
                    continue
            except Unknown:
                pass
            for _, v in outcomes(self.q, n, t):
                try:
                    got = self.say.text(v)
                except Unknown as ex:
                    self.rep.verdict(None, facet, self.w, f"{msg}: {ex}")
                    continue
                self.judge(facet, got, wants, msg)
        self.stop(facet, (), msg)

    canon = staticmethod(lambda s: s)

    def judge(self, facet, got, wants, msg):
        got, raw, wants = self.canon(got), wants, [self.canon(x) for x in wants]
        ok = got in wants
        if not ok and all(kinds(got) - kinds(x) - kinds(y) for x, y in zip(wants, raw)):
            ok = None  # written with another kind of loop
        self.rep.verdict(ok, facet, self.w, f"{msg}: found {got[:1500]}, expected {wants[0][:1500]}")

    def stop(self, facet, stops, msg):
        for b in self.breaks():
            self.rep.verdict(None if b is None else b in stops, facet, self.w, f"{msg}: a loop ends early when {b}")

    def keeps(self, facet, i, msg):
        """argument i is left as it was"""
        f = self.fn
        from common import final
        bad = [n for n in self.exits if final(n, i) is not None and self.q.norm(final(n, i)) is not arg(f, i)]
        self.rep.verdict(not bad, facet, self.w, msg)

    def breaks(self):
        """texts of the conditions under which loops end before their lists do, other than with an error"""
        an, q = self.an, self.q
        ends = {n.id for n in self.oks}
        out = []
        for h, (body, _) in an.loops().items():
            d = q.loop_domain(h)
            for c, stay, n in q.exit_conds(h):
                cc = q.norm(c)
                if cc.op == "more" or cc.op == "disc" and q.norm(cc.args[0]).op == "optelem" or n.id == h and d is not None and cc.op == "bin":
                    continue
                if d is None and len(q.exit_conds(h)) == 1:
                    continue
                for s, labs in n.succ.items():
                    if s in body or not reaches(an, s, ends):
                        continue
                    try:
                        out.append(self.say.pred(q.pred_of(cc, self.say.accepted(cc, q.labels(n, labs)))))
                    except (Unknown, TypeError):
                        out.append(None)
        return out

    def paths(self, limit=4000):
        """condition texts along the ways to an accepting result; None when there are too many or a loop"""
        an, q = self.an, self.q
        if an.loops():
            return None
        ends, out = {n.id for n in self.oks}, []
        stk = [(0, ())]
        while stk:
            n, ps = stk.pop()
            if n in ends:
                out.append(ps)
                continue
            node = an.nodes[n]
            for s, labs in node.succ.items():
                p = ()
                if node.cond is not None and len(node.succ) > 1:
                    c = q.norm(node.cond[0])
                    l = q.labels(node, labs)
                    if isinstance(l, tuple):
                        every = {int(k) for k, _ in c.args[1]} if c.op == "disc" else {0, 1}
                        acc = every - set(l[1])
                    elif l is None:
                        acc = None
                    else:
                        acc = {l}
                    try:
                        p = (self.say.pred(q.pred_of(c, acc)),) if acc is not None else (None,)
                    except Unknown:
                        p = (None,)
                stk.append((s, ps + p))
            if len(out) + len(stk) > limit:
                return None
        return out

    def preds(self):
        """texts of the conditions every accepting result needs; None for those not understood"""
        out = []
        for g in self.an.guards(self.oks):
            if not g.must:
                continue
            try:
                out.append(self.guard(g))
            except Unknown:
                out.append(None)
        return out

    def guard(self, g):
        """text of a condition, with the lists it is checked for"""
        an, q, say = self.an, self.q, self.say
        i = g.node if isinstance(g.node, int) else g.node.id
        p = q.accept(g)
        own = lambda h: any(p[1] is x or q.norm(x) is p[1] for x, _, n in q.exit_conds(h) if n.id == i and x.op in ("more", "disc"))
        return self.within(i, lambda: say.pred(p), own)

    def within(self, i, text, skip=lambda h: False):
        """text() at node i, with the loops it is in"""
        an, q, say = self.an, self.q, self.say
        hs = [h for _, h in sorted(((-len(b), h) for h, (b, _) in an.loops().items() if i in b)) if not skip(h)]
        old = dict(say.sites), say.memo, dict(say.prevs)
        try:
            tail = ""
            for h, l in zip(hs, "ijklm"):
                d = q.loop_domain(h)
                if d is None:
                    raise Unknown("a loop of unknown extent")
                mine = [x for x in an.phis if x.args[0] == h and say.before(x) is not None and any(y.op == "itermut" and an.simp(y.args[0]).op == "mref" and an.simp(y.args[0]).args[:2] == x.args[1:3] for y in subterms(d))]
                for x in mine:
                    say.prevs[x] = "it"
                tail += f" for {l} in {say.extent(d)}"
                for x in mine:
                    del say.prevs[x]
                for x in say.site(h):
                    say.sites[x] = l
            say.memo = {}
            return text() + tail
        finally:
            say.sites, say.memo, say.prevs = old

    def skipped(self, i):
        """node i can be left out: of a round of the innermost loop it is in, or of the function"""
        an = self.an
        hs = sorted((len(b), h) for h, (b, _) in an.loops().items() if i in b)
        body = an.loops()[hs[0][1]][0] if hs else None
        start, ends = (hs[0][1], {hs[0][1]}) if hs else (0, {n.id for n in self.oks})
        seen, stk = {i}, [s for s in an.nodes[start].succ] if start != i else []
        while stk:
            x = stk.pop()
            if body is not None and x not in body or x in seen:
                continue
            if x in ends:
                return True
            seen.add(x)
            stk += list(an.nodes[x].succ)
        return False

    def calls(self, name):
        """texts of the calls of name: the arguments, the loops they are in, and the conditions under which they are made"""
        out = []
        base = None
        for n in self.oks:
            cs = {(x, str(l)) for x, l in self.q.node_conds(n.id)}
            base = cs if base is None else base & cs
        for e in self.an.events:
            if e.name.split("::")[-1] != name:
                continue
            i = e.node if isinstance(e.node, int) else e.node.id
            if not reaches(self.an, i, {n.id for n in self.oks}):
                continue
            try:
                cond = []
                def text():
                    cond.extend(sorted(self.say.conds([c for c in self.q.node_conds(i) if (c[0], str(c[1])) not in (base or ())])))
                    return self.say.args(e.args)
                t = self.within(i, text)
                t += " if " + " & ".join(cond) if cond else " sometimes" if self.skipped(i) else ""
            except Unknown as ex:
                t = ex
            out.append(t)
        return out

    def does(self, facet, name, wants, msg):
        """the calls of name are these and no others; alternatives as tuples"""
        wants = [tuple(map(self.canon, x if isinstance(x, tuple) else (x,))) for x in ([wants] if isinstance(wants, str) else wants)]
        got = [self.canon(x) if isinstance(x, str) else x for x in self.calls(name)]
        for g in got:
            if isinstance(g, Unknown):
                self.rep.verdict(None, facet, self.w, f"{msg}: {g}")
            else:
                self.rep.verdict(any(g in w for w in wants) or (None if wants and all(strange(g, x) for w in wants for x in w) else False), facet, self.w,
                                 f"{msg}: found {name}({g[:900]}), expected {name}({wants[0][0][:900] if wants else ''})")
        for w in wants:
            if not any(x in w for x in got if isinstance(x, str)):
                self.rep.verdict(None if any(isinstance(x, Unknown) or all(strange(x, y) for y in w) for x in got) else False, facet, self.w, f"{msg}: no {name}({w[0][:900]})")

    def needs(self, facet, wants, msg):
        wants = [wants] if isinstance(wants, str) else wants
        ps = self.preds()
        if any(w in ps for w in wants):
            return self.rep.verdict(True, facet, self.w, msg)
        return self.rep.verdict(None if None in ps else False, facet, self.w, f"{msg}: found {[p for p in ps if p]}, expected {wants[0]}")

    def only(self, facet, allowed, msg):
        """no other condition is needed"""
        for p in self.preds():
            self.rep.verdict(None if p is None else p in allowed, facet, self.w, f"{msg}: {p}")
        if not self.preds():
            self.rep.verdict(True, facet, self.w, msg)

    def emits(self, facet, name, wants, msg):
        """every call of name has one of these argument texts, and there is one"""
        wants = [wants] if isinstance(wants, str) else wants
        n = 0
        for e in self.an.events:
            if e.name.split("::")[-1] != name:
                continue
            n += 1
            try:
                got = self.say.args(e.args)
            except Unknown as ex:
                self.rep.verdict(None, facet, self.w, f"{msg}: {ex}")
                continue
            self.rep.verdict(got in wants, facet, self.w, f"{msg}: found {got[:300]}, expected {wants[0][:300]}")
        if not n:
            self.rep.verdict(False, facet, self.w, f"{msg}: {name} is not called")


def strange(got, want):
    """written with loops of another kind, other than in a condition of its own"""
    return not got.startswith((want + " if ", want + " sometimes")) and kinds(got) - kinds(want)


def rejects(q, n):
    """the exit only returns Err"""
    v = q.an.simp(n.exit)
    vs = alts(q, v) if v.op == "phi" else [v]
    return bool(vs) and all(x.op == "agg" and x.args[1] == "Err" for x in vs)
