"""Constraint systems that circuit gadgets build.

Every gate that a gadget inserts on its way to success is turned into the polynomial the gate constrains to zero, with the selector values read from the
implementation of the gate's type; variables are named after the argument they come from, variables that the gadget creates are unknowns."""
from fractions import Fraction
from itertools import permutations
from common import *

# calls that are not entered: they have a fixed meaning here (which is decided by their own rules)
BASE = {"insert_gate", "create_variable", "create_boolean_variable_unchecked", "check_var_bound", "check_vars_bound", "check_point_var_bound", "witness",
        "check_finalize_flag", "zero", "one", "true_var", "false_var", "num_vars"}
CREATE = ("create_variable", "create_boolean_variable_unchecked", "create_boolean_variable", "create_public_variable")
WIRES = 5


# ------------------------------------------------------------ polynomials over names
def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def mul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2))
            r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v}


def power(a, n):
    r = {(): 1}
    for _ in range(n):
        r = mul(r, a)
    return r


def sub(p, env):
    """p with names replaced by polynomials"""
    r = {}
    for k, v in p.items():
        m = {(): v}
        for x in k:
            m = mul(m, env[x] if x in env else {(x,): 1})
        r = add(r, m)
    return r


def names(p):
    return {x for k in p for x in k}


def canon(p):
    """up to a constant factor"""
    if not p:
        return ()
    items = sorted(p.items())
    c = Fraction(items[0][1])
    return tuple((k, Fraction(v) / c) for k, v in items)


def text(p):
    if not p:
        return "0"
    out = []
    for k, v in sorted(p.items(), key=lambda kv: (len(kv[0]), kv[0])):
        m = "·".join(k)
        out.append(("-" if v < 0 else "+") + (m if abs(v) == 1 and m else f"{abs(v)}" + ("·" + m if m else "")))
    return " ".join(out).lstrip("+")


def P(s):
    """polynomial from text: names may contain letters, digits, _ . [ ]"""
    import re
    toks = re.findall(r"[A-Za-z_$][\w.$\[\]]*|\d+|[-+*^()]", s)
    pos = [0]

    def peekt():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def expr():
        sign = -1 if peekt() == "-" else 1
        if peekt() in "+-":
            take()
        r = {k: sign * v for k, v in term().items()}
        while peekt() in ("+", "-"):
            s_ = 1 if take() == "+" else -1
            r = add(r, term(), s_)
        return r

    def term():
        r = fac()
        while peekt() == "*":
            take()
            r = mul(r, fac())
        return r

    def fac():
        t = take()
        if t == "(":
            r = expr()
            take()
        elif t.isdigit():
            r = {(): int(t)} if int(t) else {}
        else:
            r = {(t,): 1}
        if peekt() == "^":
            take()
            r = power(r, int(take()))
        return r
    return expr()


# ------------------------------------------------------------------------ terms
def rebuild(t, f, memo):
    """t with f applied bottom-up"""
    if not isinstance(t, Term):
        return tuple(rebuild(x, f, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo:
        return memo[t]
    memo[t] = t
    r = f(T(t.op, *[rebuild(x, f, memo) for x in t.args]) if t.args else t)
    memo[t] = r
    return r


def replace_all(t, env):
    return rebuild(t, lambda x: env.get(x, x), {})


SEL = {"q_lc": 4, "q_mul": 2, "q_hash": 4, "q_ecc": 0, "q_c": 0, "q_o": 0, "q_lookup": 0, "q_dom_sep": 0, "table_key": 0, "table_dom_sep": 0}


class Unread(Exception):
    pass


class Sys:
    """the equations of a gadget; `opaque` gadgets stay calls whose results are unknowns named by the call"""
    def __init__(self, rep, prog, fn, opaque=(), exits=None, base=BASE, sem=None, eqs=None):
        self.rep, self.prog, self.fn, self.sem, self.eqs = rep, prog, fn, sem or {}, eqs or {"enforce_bool": lambda x: [add(mul(x, x), x, -1)]}
        ops = set(base) | set(opaque)
        self.an, self.q = rep.analyse(prog, fn, opaque=lambda g: g.name in ops and g is not fn)
        self.created, self.values, self.memo, self.inv = {}, {}, {}, {}
        self.roots = [(fn.locals[i][1] or f"_{i}", arg(fn, i)) for i in range(1, fn.argc + 1)]
        self.exits = exits if exits is not None else [n for n in self.an.exits() if not self.err(n.exit)]
        self.guards = [(self.q.accept(g), g) for g in self.an.guards(self.exits)]

    def err(self, t):
        t = self.q.norm(t)
        return t.op == "agg" and t.args[1] == "Err"

    # -------------------------------------------------------------- variables
    def bare(self, t):
        """the variable behind wrappers (a boolean variable is the variable it wraps)"""
        q = self.q
        while True:
            t = q.norm(t)
            if t.op in ("conv", "cast"):
                t = t.args[0]
            elif t.op == "agg" and t.args[0].split("::")[-1] in ("BoolVar", "ByteVar") and len(t.args) == 4:
                t = t.args[3]
            elif t.op == "call" and nm(t) in ("into", "from", "clone", "new_unchecked", "unsafe_new_unchecked") and len(t.args) == 3:
                t = t.args[2]
            else:
                return t

    def var(self, t):
        """value of a circuit variable as a polynomial"""
        q = self.q
        t = self.bare(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = r = self._var(t)
        return r

    def _var(self, t):
        q = self.q
        if t.op == "const" and isinstance(t.args[0], int):
            if t.args[0] in (0, 1):
                return {(): 1} if t.args[0] else {}
            raise Unread(f"variable number {t.args[0]}")
        if t.op == "call" and nm(t) in ("zero", "false_var"):
            return {}
        if t.op == "call" and nm(t) in ("one", "true_var"):
            return {(): 1}
        c = self.creation(t)
        if c is not None:
            return {(self.fresh(c, t),): 1}
        if t.op == "phi":
            vs = {self.bare(v) for v in self.an.phis.get(t, {}).values()} if hasattr(self.an, "phis") and t in self.an.phis else set()
            if vs and all(self.creation(v) is not None for v in vs):
                return {(self.fresh(t, t),): 1}
        w = t
        if w.op == "field" and str(w.args[1]) == "0":
            # the number inside a boolean variable
            x = q.norm(w.args[0])
            if self.creation(x) is not None:
                return self.var(x)
        p = self.place(t)
        if p is not None:
            return {(p,): 1}
        o = okof(t)
        o = q.norm(o) if o is not None else None
        if o is not None and o.op == "call":
            if nm(o) in self.sem:
                return self.sem[nm(o)](self, list(o.args[3:]))
            return {(self.call(o),): 1}
        if t.op == "call":
            if nm(t) in self.sem:
                return self.sem[nm(t)](self, list(t.args[3:]))
            return {(self.call(t),): 1}
        if t.op == "field":
            return {(self.part(t),): 1}
        raise Unread(pp(t, 5))

    def part(self, t):
        x = self.q.norm(t.args[0])
        o = okof(x)
        if o is not None and self.q.norm(o).op == "call":
            return f"{self.call(self.q.norm(o))}.{t.args[1]}"
        if x.op == "field":
            return f"{self.part(x)}.{t.args[1]}"
        if x.op == "call":
            return f"{self.call(x)}.{t.args[1]}"
        raise Unread(pp(t, 5))

    def call(self, c):
        """name of the result of a gadget that is not entered"""
        out = []
        for x in c.args[2:]:
            x = self.q.norm(x)
            if self.circuit(x):
                continue
            out.append(self.label(x))
        return f"{nm(c)}({', '.join(out)})"

    def circuit(self, t):
        """is it the circuit itself"""
        while t.op == "out":
            c = t.args[0]
            t = self.q.norm(c.args[2 + t.args[1]]) if c.op == "call" and len(c.args) > 2 + t.args[1] else const(0)
        return t.op == "arg" and t.args[0] == 1 and "Circuit" in self.fn.locals[1][0] or t.op == "phi" and self.phicircuit(t, set())

    def phicircuit(self, t, seen):
        if t in seen:
            return True
        seen.add(t)
        vs = self.an.phis.get(t, {}).values() if t in self.an.phis else ()
        ok = bool(vs)
        for v in vs:
            v = self.q.norm(v)
            while v.op == "out":
                c = v.args[0]
                v = self.q.norm(c.args[2 + v.args[1]]) if c.op == "call" and len(c.args) > 2 + v.args[1] else const(0)
            ok = ok and (v.op == "arg" and v.args[0] == 1 or v.op == "phi" and self.phicircuit(v, seen))
        return ok

    def label(self, x):
        xs = self.items(x)
        if xs is not None:
            return "[" + ", ".join(self.label(y) for y in xs) + "]"
        if x.op == "agg" and len(x.args) > 3:
            return x.args[0].split("::")[-1] + "(" + ", ".join(self.label(self.q.norm(y)) for y in x.args[3:]) + ")"
        try:
            return text(self.var(x))
        except Unread:
            pass
        try:
            return text(self.val(x))
        except Unread:
            return pp(strip_sites(x), 8)

    choice = None

    def chosen(self, t):
        j = t.args[0]
        if self.choice is None or j in self.an.loops():
            raise Unread(pp(t, 4))
        if j not in self.choice:
            raise Need(j)
        v = self.an.phis[t].get(self.choice[j])
        if v is None:
            raise Unread(pp(t, 4))
        return self.q.norm(v)

    def creation(self, t):
        t = self.q.norm(t)
        o = okof(t)
        o = self.q.norm(o) if o is not None else None
        return o if o is not None and o.op == "call" and nm(o) in CREATE else None

    def fresh(self, key, t):
        if key not in self.created:
            self.created[key] = f"${len(self.created) + 1}"
            self.values[self.created[key]] = (key, t)
        return self.created[key]

    def place(self, t):
        """component of an argument as text"""
        q = self.q
        tail = ""
        t = q.norm(t)
        while True:
            for n, r in self.roots:
                if t is r:
                    return n + tail
            if t.op == "field" and t.args[0].op != "as":
                tail = f".{t.args[1]}" + tail
                t = q.norm(t.args[0])
            elif t.op == "field" and t.args[0].op == "as":
                tail = f".{t.args[0].args[1]}" + tail
                t = q.norm(t.args[0].args[0])
            elif t.op == "index":
                i = q.norm(t.args[1])
                tail = f"[{pp(i, 6) if i.op == 'const' else self.ilabel(i)}]" + tail
                t = q.norm(t.args[0])
            elif t.op == "elem":
                tail = "[*]" + tail
                t = q.norm(t.args[0])
            elif t.op in ("conv", "cast"):
                t = q.norm(t.args[0])
            elif t.op == "call" and nm(t) in ("clone", "deref", "as_ref", "borrow") and len(t.args) == 3:
                t = q.norm(t.args[2])
            else:
                return None

    def ilabel(self, i):
        return pp(strip_sites(i), 6)

    # ----------------------------------------------------------- field values
    def items(self, t, n=None):
        """elements of an array of known length"""
        q = self.q
        t = q.norm(t)
        xs = array_of(t)
        if xs is not None:
            return [q.norm(x) for x in xs]
        m = self.arraylen(t)
        if m is not None:
            return [q.norm(T("index", t, const(i))) for i in range(m)]
        s = q.seq(t)
        if s and all(p[0] == "one" for p in s):
            return [q.norm(p[1]) for p in s]
        if t.op in ("map", "collectR", "collect"):
            n = self.length(t)
            if n is not None:
                return [self.unroll(t, i) for i in range(n)]
        return None

    def arraylen(self, t):
        import re
        for i, (n, r) in enumerate(self.roots, 1):
            if t is r:
                m = re.fullmatch(r"&?(?:mut )?\[.*; (\d+)\]", self.fn.locals[i][0])
                return int(m.group(1)) if m else None
        return None

    def length(self, t):
        t = self.q.norm(t)
        xs = array_of(t)
        if xs is not None:
            return len(xs)
        if t.op in ("map", "rev", "enumerate", "collectR", "collect"):
            return self.length(t.args[0])
        if t.op == "zip":
            ls = [self.length(x) for x in t.args if isinstance(x, Term)]
            ls = [l for l in ls if l is not None]
            return min(ls) if len(ls) == len([x for x in t.args if isinstance(x, Term)]) else None
        return self.arraylen(t)

    def unroll(self, t, i):
        q = self.q
        t = q.norm(t)
        if t.op == "map":
            site = t.args[2]
            body = q.norm(t.args[1])

            def f(x):
                if x.op == "elem" and x.args[1] == site:
                    return self.unroll(x.args[0], i)
                return x
            return q.norm(rebuild(body, f, {}))
        if t.op == "zip":
            return T("agg", "tuple", "", (), *[self.unroll(x, i) for x in t.args if isinstance(x, Term)])
        xs = array_of(t)
        if xs is not None and i < len(xs):
            return q.norm(xs[i])
        return q.norm(T("index", t, const(i)))

    def val(self, t, depth=0):
        """value of a field element as a polynomial over names"""
        q = self.q
        t = q.norm(t)
        if depth > 40:
            raise Unread("depth")
        d = depth + 1
        v = lambda x: self.val(x, d)
        if t.op == "bin" and t.args[0] in ("Add", "Sub"):
            return add(v(t.args[1]), v(t.args[2]), 1 if t.args[0] == "Add" else -1)
        if t.op == "bin" and t.args[0] == "Mul":
            return mul(v(t.args[1]), v(t.args[2]))
        if t.op == "bin" and t.args[0] == "Div":
            return mul(v(t.args[1]), {(self.inverse(v(t.args[2])),): 1})
        if t.op == "un" and t.args[0] == "Neg":
            return {k: -x for k, x in v(t.args[1]).items()}
        if t.op == "conv" and t.args[0].op == "const" and isinstance(t.args[0].args[0], (int, bool)):
            return {(): int(t.args[0].args[0])} if t.args[0].args[0] else {}
        if t.op == "conv":
            return v(t.args[0])
        if t.op == "kconst":
            n = t.args[0].split("::")[-1]
            return {} if n == "ZERO" else {(): 1} if n == "ONE" else {(n,): 1}
        o = okof(t)
        o = q.norm(o) if o is not None else None
        if o is not None and o.op == "call":
            if nm(o) == "witness":
                return self.var(o.args[3])
            if nm(o) == "inverse":
                return {(self.inverse(v(o.args[2])),): 1}
        if t.op == "call":
            n, a = nm(t), list(t.args[2:])
            if n == "zero" and not a:
                return {}
            if n == "one" and not a:
                return {(): 1}
            if n == "square" and len(a) == 1:
                return power(v(a[0]), 2)
            if n == "double" and len(a) == 1:
                return add(v(a[0]), v(a[0]))
            if n == "neg" and len(a) == 1:
                return {k: -x for k, x in v(a[0]).items()}
            if n == "pow" and len(a) == 2:
                xs = array_of(q.norm(a[1]))
                if xs is not None and len(xs) == 1 and is_int_const(q.norm(xs[0])) and q.norm(xs[0]).args[0] < 64:
                    return power(v(a[0]), q.norm(xs[0]).args[0])
            if n in ("clone", "deref", "borrow", "into", "from") and len(a) == 1:
                return v(a[0])
            if n in ("sum", "product"):
                xs = self.items(a[0])
                if xs is not None:
                    r = {} if n == "sum" else {(): 1}
                    for x in xs:
                        r = add(r, v(x)) if n == "sum" else mul(r, v(x))
                    return r
        if t.op == "phi" and self.choice is not None and t in self.an.phis and t.args[0] not in self.an.loops():
            return v(self.chosen(t))
        if t.op == "phi":
            return {(f"?{t.id}",): 1}
        if t.op == "field" and self.choice is not None and q.norm(t.args[0]).op == "phi" and q.norm(t.args[0]) in self.an.phis and q.norm(t.args[0]).args[0] not in self.an.loops():
            return v(T("field", self.chosen(q.norm(t.args[0])), t.args[1]))
        if t.op == "index" and is_int_const(q.norm(t.args[1])) and q.norm(t.args[0]).op in ("map", "zip"):
            return v(self.unroll(t.args[0], q.norm(t.args[1]).args[0]))
        if t.op == "field" and t.args[1] in ("x", "y") and q.norm(t.args[0]).op == "call" and nm(q.norm(t.args[0])) == "zero":
            return {} if t.args[1] == "x" else {(): 1}
        p = self.place(t)
        if p is not None:
            return {(p,): 1}
        return {(pp(strip_sites(t), 9),): 1}

    def inverse(self, p):
        k = "inv(" + text(p) + ")"
        self.inv[k] = p
        return k

    # ----------------------------------------------------------------- gates
    def selectors(self, g):
        g = self.q.norm(g)
        while g.op == "call" and nm(g) in ("new", "clone", "into", "from") and len(g.args) == 3:
            g = self.q.norm(g.args[2])
        if g.op != "agg":
            raise Unread("gate " + pp(g, 4))
        ty = g.args[0].split("::")[-1].split("<")[0]
        out = {}
        for m, w in SEL.items():
            fns = [f for f in self.prog.fns.values() if f.name == m and f.kind != "Closure" and "#p" not in f.id and f.self and head(f.self).split("::")[-1] == ty]
            if not fns:
                out[m] = [{}] * w if w else {}
                continue
            if len(fns) > 1:
                raise Unread(f"{len(fns)} implementations of {m} for {ty}")
            t = selector_term(self.prog, fns[0])
            if t is None:
                raise Unread(f"{m} of {ty}")
            t = self.q.norm(replace_all(t, {arg(fns[0], 1): g}))
            if w:
                xs = self.items(t)
                if xs is None or len(xs) != w:
                    raise Unread(f"{m} of {ty}: {pp(t, 4)}")
                out[m] = [self.val(x) for x in xs]
            else:
                out[m] = self.val(t)
        return out

    def equation(self, wires, g):
        xs = self.items(wires)
        if xs is None or len(xs) != WIRES:
            raise Unread("wires " + pp(wires, 4))
        w = [self.var(x) for x in xs]
        s = self.selectors(g)
        if s["q_lookup"]:
            return None
        p = s["q_c"]
        for c, x in zip(s["q_lc"], w):
            p = add(p, mul(c, x))
        p = add(p, mul(s["q_mul"][0], mul(w[0], w[1])))
        p = add(p, mul(s["q_mul"][1], mul(w[2], w[3])))
        for c, x in zip(s["q_hash"], w):
            if c:
                p = add(p, mul(c, power(x, 5)))
        if s["q_ecc"]:
            p = add(p, mul(s["q_ecc"], mul(mul(mul(w[0], w[1]), mul(w[2], w[3])), w[4])))
        return add(p, mul(s["q_o"], w[4]), -1)

    def succeeded(self):
        """calls that have returned Ok on every successful return, in order"""
        out = []
        for p, g in self.guards:
            if g.must and p[0] == "is" and p[2] == frozenset({"Ok"}):
                c = self.q.norm(p[1])
                if c.op == "call" and c not in out:
                    out.append(c)
        # a call whose result is what is returned
        rs = [self.q.norm(n.exit) for n in self.exits]
        for c in rs:
            if c.op == "call" and len(rs) == 1 and c not in out:
                out.append(c)
        return out

    def inserts(self):
        return [e for e in self.an.events if e.name.split("::")[-1] == "insert_gate"]

    def equations(self):
        """[polynomial] of the gates every successful call inserts; raises Unread when one is not readable"""
        out = []
        done = self.succeeded()
        for c in done:
            if nm(c) == "insert_gate":
                out.append(self.equation(c.args[3], c.args[4]))
            elif nm(c) in self.eqs:
                out += self.eqs[nm(c)](*[self.var(x) for x in c.args[3:]])
        return out

    def stray(self):
        """gates that are not inserted exactly once on every successful call"""
        done = {c for c in self.succeeded() if nm(c) == "insert_gate"}
        loops = self.an.loops()
        out = []
        for e in self.inserts():
            r = self.q.norm(e.ret) if isinstance(e.ret, Term) else None
            nid = e.node if isinstance(e.node, int) else e.node.id
            if any(nid in b for b, _ in loops.values()):
                out.append(e)
            elif r not in done and not any(c.args[3:] == r.args[3:] for c in done if r is not None and r.op == "call"):
                out.append(e)
        return out

    # ------------------------------------------------------------ elimination
    def solve(self, eqs, out=()):
        """eliminates created variables that an equation defines; (remaining equations, outputs)"""
        eqs = [e for e in eqs if e]
        out = list(out)
        progress = True
        while progress:
            progress = False
            for e in list(eqs):
                for v in sorted(x for x in names(e) if x.startswith("$")):
                    c = e.get((v,))
                    if c is None or any(v in k and k != (v,) for k in e):
                        continue
                    d = {k: Fraction(-x) / c for k, x in e.items() if k != (v,)}
                    d = {k: (int(x) if x.denominator == 1 else x) for k, x in d.items()}
                    eqs.remove(e)
                    eqs = [y for y in (sub(x, {v: d}) for x in eqs) if y]
                    out = [sub(x, {v: d}) for x in out]
                    progress = True
                    break
                if progress:
                    break
        return eqs, out

    def outputs(self):
        """the returned variables (components of the Ok payload)"""
        vs = []
        for n in self.exits:
            t = self.q.norm(n.exit)
            if t.op == "agg" and t.args[1] == "Ok":
                vs.append(self.q.norm(t.args[3]))
            else:
                vs.append(None)
        if len(set(vs)) != 1:
            raise Unread("returned values differ")
        t = vs[0]
        if t is None:
            return []
        if t.op == "agg" and t.args[0] == "tuple" and len(t.args) == 3:
            return []
        if t.op == "agg" and t.args[0].split("::")[-1] not in ("BoolVar",) and len(t.args) > 3:
            return [self.var(x) for x in t.args[3:]]
        xs = self.items(t)
        if xs is not None:
            return [self.var(x) for x in xs]
        return [self.var(t)]


_selcache = {}


def selector_term(prog, fn):
    k = (id(prog), fn.id)
    if k not in _selcache:
        an = Analysis(prog, fn)
        q = Q(an)
        vs = {q.norm(n.exit) for n in an.exits()}
        _selcache[k] = vs.pop() if len(vs) == 1 else None
    return _selcache[k]


def matches(eqs, outs, weqs, wouts):
    """equal up to renaming of the unknowns that are left and constant factors of the equations"""
    mine = sorted({x for p in eqs + outs for x in names(p) if x.startswith("$")})
    want = sorted({x for p in weqs + wouts for x in names(p) if x.startswith("$")})
    if len(mine) != len(want) or len(outs) != len(wouts):
        return False
    target = ({canon(p) for p in weqs}, wouts)
    for perm in permutations(want):
        env = {m: {(w,): 1} for m, w in zip(mine, perm)}
        if {canon(sub(p, env)) for p in eqs} == target[0] and [sub(p, env) for p in outs] == target[1]:
            return True
    return False


def constrains(rep, s, facet, weqs, wouts=(), msg=""):
    """the gadget constrains exactly the given equations and returns the given values"""
    w = s.fn.path
    try:
        eqs = s.equations()
        outs = s.outputs()
    except Unread as e:
        return rep.unk(facet, w, f"not read: {e}")
    st = s.stray()
    weqs, wouts = [P(x) for x in weqs], [P(x) for x in wouts]
    if None in eqs:
        return rep.unk(facet, w, "lookup gates")
    left, ov = s.solve(eqs, outs)
    wl, wo = s.solve(weqs, wouts)
    ok = matches(left, ov, wl, wo)
    if st and not ok:
        names_ = ", ".join(sorted({str(e.node) for e in st}))
        return rep.verdict(False, facet, w, f"{msg or 'gates are not inserted on every successful call'}: {len(st)} gate insertions are conditional or repeated ({names_}); unconditional ones give {[text(p) for p in left]} -> {[text(p) for p in ov]}")
    return rep.verdict(ok and not st, facet, w, f"{msg}: constrains {[text(p) for p in left]} and returns {[text(p) for p in ov]}, expected {[text(p) for p in wl]} and {[text(p) for p in wo]}")


# -------------------------------------------------------------- completeness
def reduce(p, rules, invs, limit=400):
    """p modulo x -> polynomial rules and u·inv(u) = 1"""
    for _ in range(limit):
        if any(x in rules for x in names(p)):
            p = sub(p, rules)
            continue
        done = True
        for k, v in list(p.items()):
            for x in k:
                u = invs.get(x)
                if u is None:
                    continue
                u = sub(u, rules)
                lead = max((m for m in u if m), key=lambda m: (len(m), m), default=None)
                if lead is None:
                    continue
                rest = list(k)
                rest.remove(x)
                try:
                    for y in lead:
                        rest.remove(y)
                except ValueError:
                    continue
                # lead·inv = (1 - (u - c·lead)·inv) / c
                c = Fraction(u[lead])
                other = {m: w for m, w in u.items() if m != lead}
                r = add({(): 1}, mul(other, {(x,): 1}), -1)
                r = {m: Fraction(w) / c for m, w in r.items()}
                p = {m: w for m, w in p.items() if m != k}
                p = add(p, mul({tuple(sorted(rest)): v}, r))
                done = False
                break
            if not done:
                break
        if done:
            return p
    return p


class Need(Exception):
    def __init__(self, join):
        self.join = join


def complete(rep, s, facet, allowed=()):
    """with the values the gadget assigns to the variables it creates all its equations hold (but for the allowed ones, which constrain the inputs)"""
    w, q, an = s.fn.path, s.q, s.an
    allowed = {canon(P(x)) for x in allowed}
    try:
        eqs = s.equations()
        s.outputs()
        keys = [(k, v) for k, v in s.created.items()]
        bad, unread, cases = None, None, 0
        todo = [{}]
        while todo:
            s.choice = todo.pop()
            if len(s.choice) > 12:
                raise Unread("too many joins")
            try:
                r = assigned(s, eqs, keys)
            except Need as e:
                for p in sorted(an.nodes[e.join].pred):
                    if p >= 0 and p in an.live_nodes or p >= 0 and an.nodes[p] in an.live_nodes:
                        todo.append({**s.choice, e.join: p})
                continue
            cases += 1
            if cases > 300:
                raise Unread("too many cases")
            if r is None:
                continue
            for e, v in r:
                if v and canon(v) not in allowed:
                    bad = (text(e), text(v))
                    if any(x.startswith("?") or "(" in x and not x.startswith("inv(") for x in names(v)):
                        unread = bad
    except Unread as e:
        return rep.unk(facet, w, f"not read: {e}")
    finally:
        s.choice = None
    if bad is not None and unread is not None:
        return rep.unk(facet, w, f"{unread}")
    return rep.verdict(bad is None and cases > 0, facet, w, f"with the assigned values {bad[0] if bad else ''} = 0 becomes {bad[1] if bad else ''} = 0")


def assigned(s, eqs, keys):
    """[(equation, its value)] for one choice of the ways to the joins; None when the ways contradict each other"""
    q, an = s.q, s.an
    env = {}
    for k, v in keys:
        x = k
        if k.op == "phi":
            x = s.chosen(k)
            while x.op == "phi":
                x = s.chosen(x)
            x = s.creation(x)
            if x is None:
                raise Unread(pp(k, 4))
        env[v] = s.val(x.args[3])
    for v in env:
        for _ in range(12):
            if any(y in env for y in names(env[v])):
                env[v] = sub(env[v], env)
    invs = {k: sub(u, env) for k, u in s.inv.items()}
    rules, never = {}, []
    conds = [(q.norm(c), l) for j, p in s.choice.items() for cs in q.path_conds(p, j) for c, l in cs]
    for c, l in conds:
        p = q.pred_of(c, {l} if not isinstance(l, tuple) else {x for x in (0, 1) if x not in l[1]})
        e = None
        x = q.norm(p[1]) if isinstance(p[1], Term) else None
        if p[0] in ("Eq", "Ne"):
            e = add(s.val(p[1]), s.val(p[2]), -1)
        elif p[0] in ("true", "false") and x.op == "call" and nm(x) == "is_zero":
            e = s.val(x.args[2])
        elif p[0] in ("true", "false") and x.op == "call" and nm(x) == "is_one":
            e = add(s.val(x.args[2]), {(): 1}, -1)
        elif p[0] == "is" and x.op == "call" and nm(x) == "inverse":
            if p[2] == frozenset({"None"}):
                return None
            e = s.val(x.args[2])
            p = ("Ne",)
        if e is None:
            continue
        e = sub(e, env)
        if p[0] in ("Eq", "true"):
            e = reduce(e, rules, invs)
            if not e:
                continue
            if not names(e):
                return None
            for y in sorted(names(e)):
                if (y,) in e and not any(y in m and m != (y,) for m in e):
                    r = {m: Fraction(-z) / e[(y,)] for m, z in e.items() if m != (y,)}
                    rules = {k: sub(v, {y: r}) for k, v in rules.items()}
                    rules[y] = r
                    break
        else:
            never.append(e)
            bs = {n for i, (n, _) in enumerate(s.roots, 1) if s.fn.locals[i][0].endswith("BoolVar")}
            y = next(iter(names(e)), None)
            if len(names(e)) == 1 and y in bs and set(e) <= {(), (y,)}:
                z = Fraction(-e.get((), 0)) / e[(y,)]
                if z in (0, 1):
                    if y in rules:
                        if not reduce(e, rules, invs):
                            return None
                    else:
                        rules[y] = {(): 1} if z == 0 else {}
    if any(not reduce(e, rules, invs) for e in never):
        return None
    return [(e, reduce(sub(e, env), rules, invs)) for e in eqs]
