"""Iteration-number form: every loop index is written as start + K (or end - 1 - K), K being the number of the
iteration, so that loops over shifted ranges, iterators and counters give the same expressions."""
from engine import *
from q import *


def K(site):
    return T("K", site)


def has_phi(t, memo=None):
    memo = {} if memo is None else memo
    if t not in memo:
        memo[t] = False
        memo[t] = t.op == "phi" or any(has_phi(a, memo) for a in t.args if isinstance(a, Term))
    return memo[t]


class KForm:
    def __init__(self, q):
        self.q = q
        self.memo = {}

    def __call__(self, t, sub=None):
        if sub:
            return self._k(self.q.norm(t), sub, {})
        return self._k(self.q.norm(t), {}, self.memo)

    def _k(self, t, sub, memo):
        if not isinstance(t, Term):
            return t
        if t in memo:
            return memo[t]
        memo[t] = t
        r = self._kk(t, sub, memo)
        memo[t] = r
        return r

    def _kk(self, t, sub, memo):
        k = lambda x: self._k(x, sub, memo)
        op = t.op
        if op == "phi" or op == "const":
            return t
        if op == "K":
            return sub.get(t.args[0], t)
        if op == "el":
            return sub.get(t.args[0], K(t.args[0]))
        if op == "idx":
            return sub.get(t.args[1], K(t.args[1]))
        if op == "ridx":
            lo, hi, site, rev = t.args
            kk = sub.get(site, K(site))
            if rev:
                return self.isum(T("bin", "Sub", T("bin", "Sub", k(hi), const(1)), kk))
            return self.isum(T("bin", "Add", k(lo), kk))
        if op == "elem":
            v, site = t.args
            kk = sub.get(site, K(site))
            return self.at(v, kk, sub, memo)
        if op == "index":
            return self.at(t.args[0], self.isum(k(t.args[1])), sub, memo)
        if op == "bin" and t.args[0] in ("Add", "Sub"):
            x = T("bin", t.args[0], k(t.args[1]), k(t.args[2]))
            return x
        a = [k(x) if isinstance(x, Term) else x for x in t.args]
        r = T(op, *a)
        return r

    def at(self, v, i, sub, memo):
        k = lambda x: self._k(x, sub, memo)
        if v.op in ("take",):
            return self.at(v.args[0], i, sub, memo)
        if v.op == "map":
            s = dict(sub)
            s[v.args[2]] = i
            r = self._k(v.args[1], s, {})
            if has_phi(v.args[1]):
                # values computed inside the iteration stay relative to its own number
                return T("bindk", r, K(v.args[2]), i)
            return r
        if v.op == "rev":
            n = self.q.nlen(v.args[0])
            return self.at(v.args[0], self.isum(T("bin", "Sub", T("bin", "Sub", k(n), const(1)), i)), sub, memo)
        if v.op == "skip":
            return self.at(v.args[0], self.isum(T("bin", "Add", i, k(v.args[1]))), sub, memo)
        if v.op == "slice" and v.args[1].op != "fromend":
            return self.at(v.args[0], self.isum(T("bin", "Add", i, k(v.args[1]))), sub, memo)
        if v.op == "agg" and v.args[0].split("::")[-1] == "Range":
            return self.isum(T("bin", "Add", k(v.args[3]), i))
        if v.op == "rangei":
            return self.isum(T("bin", "Add", k(v.args[0]), i))
        if v.op == "call" and len(v.args) >= 3 and v.args[0].split("::")[-1] in ("normalize_batch", "batch_normalization_into_affine"):
            return self.at(v.args[2], i, sub, memo)
        if v.op == "call" and len(v.args) == 4 and v.args[0].split("::")[-1] == "batch_mul":
            return T("bin", "Mul", k(v.args[2]), self.at(v.args[3], i, sub, memo))
        return T("index", k(v), i)

    def isum(self, t):
        """canonical form of an integer sum"""
        d = _lin(self.q, t)
        c = d.get(None, 0)
        items = sorted(((a, n) for a, n in d.items() if a is not None and n), key=lambda x: x[0].id)
        if not items:
            return const(c)
        if len(items) == 1 and items[0][1] == 1 and c == 0:
            return items[0][0]
        return T("isum", tuple((n, a.id) for a, n in items), c, *[a for a, n in items])

    def i(self, t, sub=None):
        return self.isum(self(t, sub))

    def ring(self, t, sub=None):
        """polynomial form with canonical atoms"""
        r = {}
        for m, c in ring(self.q, t).items():
            key = tuple(sorted((self(x, sub) for x in m), key=lambda z: z.id))
            r[key] = r.get(key, 0) + c
        return {m: c for m, c in r.items() if c}


def _lin(q, t):
    if t.op == "isum":
        r = {None: t.args[1]}
        for (n, _), a in zip(t.args[0], t.args[2:]):
            r[a] = r.get(a, 0) + n
        return r
    if is_int_const(t):
        return {None: int(t.args[0])}
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        a, b = _lin(q, t.args[1]), _lin(q, t.args[2])
        r = dict(a)
        s = 1 if t.args[0] == "Add" else -1
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return r
    if t.op == "bin" and t.args[0] == "Mul":
        a, b = _lin(q, t.args[1]), _lin(q, t.args[2])
        for x, y in ((a, b), (b, a)):
            if not [z for z in x if z is not None and x[z]]:
                return {k: v * x.get(None, 0) for k, v in y.items()}
    return {t: 1, None: 0}


def isum(*parts):
    """build a canonical sum from (coef, term) pairs and an int"""
    kf = KForm(None)
    t = const(0)
    for p in parts:
        if isinstance(p, int):
            t = T("bin", "Add", t, const(p)) if p >= 0 else T("bin", "Sub", t, const(-p))
        elif isinstance(p, tuple):
            t = T("bin", "Add" if p[0] > 0 else "Sub", t, p[1])
        else:
            t = T("bin", "Add", t, p)
    return kf.isum(t)
