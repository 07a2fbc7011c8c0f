"""Values of circuit variables as polynomials over the gadget's inputs: arithmetic gadgets (add, sub, lc, selection, ...) are read as the operation they
constrain, every other gadget call is an atom identified by its name and the values of its inputs (the circuit state is left out)."""
from common import *

OPS = ("add", "sub", "mul", "lc", "add_constant", "mul_constant", "conditional_select", "mul_add", "sum", "gen_quad_poly",
       "zero", "one", "false_var", "true_var", "is_equal", "is_zero", "logic_and", "logic_or", "logic_neg", "logic_and_all", "enforce_true", "enforce_bool", "enforce_false",
       "enforce_equal", "enforce_constant", "non_zero_gate", "create_variable", "create_boolean_variable", "create_public_variable", "create_constant_variable", "is_neq", "is_less_than")


def gadget_op(*more, without=()):
    names = (set(OPS) | set(more)) - set(without)
    return lambda g: g.name in names


class Circ:
    def __init__(self, q, witness=True):
        self.q, self.memo, self.witness = q, {}, witness

    def args(self, c):
        return list(c.args[3:])

    def call(self, t):
        """the gadget call a variable comes from"""
        t = self.q.norm(t)
        while t.op in ("conv", "cast"):
            t = self.q.norm(t.args[0])
        c = okof(t)
        c = self.q.norm(c) if c is not None else t
        return c if c.op == "call" else None

    def __call__(self, t, depth=0):
        q = self.q
        t = q.norm(t)
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self._val(t, depth)
        return r

    def strip(self, t):
        q = self.q
        while True:
            t = q.norm(t)
            if t.op in ("conv", "cast"):
                t = t.args[0]
            elif t.op == "field" and t.args[1] == "0" and okof(t) is None and t.args[0].op != "agg":
                x = q.norm(t.args[0])
                if okof(x) is not None or x.op in ("arg", "field", "elem", "index", "conv"):
                    t = x
                else:
                    return t
            elif t.op == "agg" and t.args[0].split("::")[-1] == "BoolVar":
                t = t.args[3]
            elif nm(t) in ("into", "from", "clone", "unsafe_new_unchecked", "new_unchecked") and t.op == "call" and len(t.args) == 3:
                t = t.args[2]
            else:
                return t

    def _val(self, t, depth):
        q = self.q
        t = self.strip(t)
        if depth > 60:
            return {(t,): 1}
        v = lambda x: self(x, depth + 1)
        c = self.call(t)
        if c is None:
            return self.field(t)
        n, a = nm(c), self.args(c)
        if n in ("zero", "false_var"):
            return {}
        if n in ("one", "true_var"):
            return {(): 1}
        if n == "add" and len(a) == 2:
            return padd(v(a[0]), v(a[1]), 1)
        if n == "sub" and len(a) == 2:
            return padd(v(a[0]), v(a[1]), -1)
        if n == "mul" and len(a) == 2:
            return pmul(v(a[0]), v(a[1]))
        if n == "add_constant" and len(a) == 2:
            return padd(v(a[0]), self.field(a[1]), 1)
        if n == "mul_constant" and len(a) == 2:
            return pmul(v(a[0]), self.field(a[1]))
        if n == "logic_neg" and len(a) == 1:
            return padd({(): 1}, v(a[0]), -1)
        if n in ("logic_and",) and len(a) == 2:
            return pmul(v(a[0]), v(a[1]))
        if n == "lc" and len(a) == 2:
            xs, cs = self.array(a[0]), self.array(a[1])
            if xs is not None and cs is not None and len(xs) == len(cs):
                r = {}
                for x, k in zip(xs, cs):
                    r = padd(r, pmul(v(x), self.field(k)), 1)
                return r
        if n == "mul_add" and len(a) == 2:
            xs, cs = self.array(a[0]), self.array(a[1])
            if xs is not None and cs is not None and len(xs) == 4 and len(cs) == 2:
                return padd(pmul(pmul(v(xs[0]), v(xs[1])), self.field(cs[0])), pmul(pmul(v(xs[2]), v(xs[3])), self.field(cs[1])), 1)
        if n == "sum" and len(a) == 1:
            xs = self.array(a[0])
            if xs is not None:
                r = {}
                for x in xs:
                    r = padd(r, v(x), 1)
                return r
        if n == "conditional_select" and len(a) == 3:
            b = v(a[0])
            return padd(pmul(padd({(): 1}, b, -1), v(a[1])), pmul(b, v(a[2])), 1)
        if n in ("create_variable", "create_public_variable", "create_constant_variable") and len(a) == 1 and self.witness:
            return self.field(a[0])
        return {(self.atom(c, depth),): 1}

    def array(self, t):
        t = self.q.norm(t)
        xs = array_of(t)
        if xs is not None:
            return list(xs)
        s = self.q.seq(t)
        if s and all(p[0] == "one" for p in s):
            return [p[1] for p in s]
        return None

    def field(self, t):
        return ring(self.q, t)

    def atom(self, c, depth=0):
        ks = []
        for x in self.args(c):
            ks.append(self.key(x, depth))
        if nm(c) in ("is_equal", "enforce_equal"):
            ks.sort(key=str)
        return T("gad", nm(c), *ks)

    def key(self, x, depth=0):
        xs = self.array(x)
        if xs is not None:
            return T("arr", *[self.key(y, depth + 1) for y in xs])
        return pkey(self(x, depth + 1))


def pkey(p):
    if len(p) == 1:
        (k, v), = p.items()
        if v == 1 and len(k) == 1:
            return k[0]
    return T("poly", *[T("mono", v, *k) for k, v in sorted(p.items(), key=lambda kv: ([x.id for x in kv[0]], kv[1]))])


def psub(p, env):
    """substitute atoms by polynomials"""
    r = {}
    for k, v in p.items():
        m = {(): v}
        for x in k:
            m = pmul(m, env[x] if x in env else {(x,): 1})
        r = padd(r, m, 1)
    return r


def one(x):
    return {(x,): 1}
