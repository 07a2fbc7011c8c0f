"""Helpers shared by the rules of several crates."""
from core import *
from engine import *
from q import *
from kform import K, KForm
from utils_rules import nm, case_list
from utils2_rules import ok_exits, payload, elementwise, covers


def arg(fn, name):
    """the term of a parameter, by position or by name"""
    if isinstance(name, int):
        return T("arg", name, fn.locals[name][1] or f"_{name}")
    for i in range(1, fn.argc + 1):
        if fn.locals[i][1] == name:
            return T("arg", i, name)
    raise Anchor(f"{fn.path} has no parameter {name}")


def peel(q, t, *names):
    """strip conversions and the named one-argument calls"""
    t = q.norm(t)
    while True:
        if t.op in ("conv", "cast", "tryconv"):
            t = t.args[0]
        elif t.op == "call" and nm(t) in names and len(t.args) == 3:
            t = t.args[2]
        else:
            return t


def refuses(rep, an, q, facet, w, exits, classify, ranges, bad, msg, good=None):
    """every success exit is guarded so that the bad assignments of the classified integers are refused on every path;
    with `good`, assignments satisfying it are not refused"""
    preds, unsure = [], []
    names = list(ranges)
    for g in an.guards(exits):
        p = q.accept(g)
        if p[0] in NEG:
            t = q.nbin(*p)
        elif p[0] in ("true", "false") and p[1].op == "iop":
            t = p[1] if p[0] == "true" else T("un", "Not", p[1])
        elif p[0] == "in" and p[2] and all(isinstance(x, int) for x in p[2]):
            t = T("oneof", p[1], p[2])
        else:
            rl = {classify(x) for x in an.subterms(g.cond, False)} & set(ranges)
            if rl:
                unsure.append(rl)
            continue
        at = q.iatoms(t if t.op != "oneof" else t.args[0])
        roles = {a: classify(a) for a in at}
        if not at or any(r not in ranges for r in roles.values()):
            rl = {r for r in roles.values() if r in ranges}
            if rl:
                unsure.append(rl)
            continue
        preds.append((g, t, roles))
    why = ""
    holds = True
    for vals in itertools.product(*[ranges[n] for n in names]):
        e = dict(zip(names, vals))
        b, ok = bad(e), good is not None and good(e)
        if not b and not ok:
            continue
        rej = anyrej = False
        for g, t, roles in preds:
            env = {a: e[r] for a, r in roles.items()}
            if t.op == "oneof":
                v = ieval(q, t.args[0], env)
                v = None if v is None else int(v in t.args[1])
            else:
                v = ieval(q, t, env)
            if v == 0:
                anyrej = True
                rej = rej or g.must
        if b and not rej:
            holds, why = False, f"{msg} ({', '.join(f'{k}={v}' for k, v in e.items())} is accepted)"
            break
        if ok and anyrej:
            holds, why = False, f"valid input is refused ({', '.join(f'{k}={v}' for k, v in e.items())})"
            break
    if not holds and unsure and "is accepted" in why:
        # a condition that only sees values it also sees for a valid input cannot be what refuses the invalid one
        oks = [dict(zip(names, v)) for v in itertools.product(*[ranges[n] for n in names])] if good is not None else []
        oks = [x for x in oks if good(x)]
        if not all(any(all(x[r] == e[r] for r in rl) for x in oks) for rl in unsure):
            holds = None
    return rep.verdict(holds, facet, w, why or msg)


# ------------------------------------------------------------ group algebra
STRIP = ("into_group", "into_affine", "into", "from", "clone", "into_owned", "to_owned", "borrow", "prepare_g1", "prepare_g2")


class Group:
    """ring normal form of expressions over group elements and scalars; batch operations are taken apart"""

    def __init__(self, q, kf=None, hook=None):
        self.q, self.kf, self.hook = q, kf, hook
        self.memo = {}

    def strip(self, t):
        q = self.q
        t = q.norm(t)
        for _ in range(60):
            if t.op in ("conv", "cast"):
                t = t.args[0]
            elif t.op == "call" and nm(t) in STRIP and len(t.args) == 3:
                t = t.args[2]
            elif t.op in ("index", "elem") and nm(t.args[0]) in ("normalize_batch", "batch_normalization_into_affine"):
                inner = t.args[0].args[2]
                t = q.norm(index(inner, t.args[1]) if t.op == "index" else elem(inner, t.args[1]))
            else:
                return t
        return t

    def __call__(self, t, depth=0):
        t = self.strip(t)
        if t in self.memo:
            return self.memo[t]
        r = self.go(t, depth)
        self.memo[t] = r
        return r

    def go(self, t, depth):
        q = self.q
        if depth > 40:
            return {(t,): 1}
        if self.hook is not None:
            h = self.hook(self, t)
            if h is not None:
                return h
        if t.op == "bin" and t.args[0] in ("Add", "Sub"):
            return padd(self(t.args[1], depth + 1), self(t.args[2], depth + 1), 1 if t.args[0] == "Add" else -1)
        if t.op == "bin" and t.args[0] == "Mul":
            return pmul(self(t.args[1], depth + 1), self(t.args[2], depth + 1)) or {}
        if t.op == "un" and t.args[0] == "Neg":
            return {k: -v for k, v in self(t.args[1], depth + 1).items()}
        n = nm(t)
        if n in ("mul", "mul_bigint", "mul_assign") and len(t.args) == 4:
            return pmul(self(t.args[2], depth + 1), self(t.args[3], depth + 1)) or {}
        if n in ("add", "sub") and len(t.args) == 4:
            return padd(self(t.args[2], depth + 1), self(t.args[3], depth + 1), 1 if n == "add" else -1)
        if n == "neg" and len(t.args) == 3:
            return {k: -v for k, v in self(t.args[2], depth + 1).items()}
        if n == "into_bigint" and len(t.args) == 3:
            return self(t.args[2], depth + 1)
        if n == "zero" and len(t.args) == 2:
            return {}
        if n == "one" and len(t.args) == 2:
            return {(): 1}
        if n in ("double", "square") and len(t.args) == 3:
            x = self(t.args[2], depth + 1)
            return padd(x, x, 1) if n == "double" else pmul(x, x)
        if t.op == "kconst" and t.args[0].split("::")[-1] in ("ZERO", "ONE"):
            return {} if t.args[0].endswith("ZERO") else {(): 1}
        if t.op == "index" and nm(t.args[0]) == "batch_mul" and len(t.args[0].args) == 4:
            b = t.args[0]
            return pmul(self(b.args[2], depth + 1), self(q.norm(index(b.args[3], t.args[1])), depth + 1))
        return {(t,): 1}


def padd(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def pmul(a, b):
    r = {}
    for (k1, v1), (k2, v2) in itertools.product(a.items(), b.items()):
        k = tuple(sorted(k1 + k2, key=lambda x: x.id))
        r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v}


def pneg(a):
    return {k: -v for k, v in a.items()}


def poly_text(p):
    return " + ".join(f"{'' if v == 1 else v}{'*'.join(pp(x, 3) for x in k) or 1}" for k, v in list(p.items())[:8]) or "0"


def pairing_parts(q, t):
    """the (left, right, domain) operand pairs of a product of pairings; domain is None for a single pair.
    None when the shape is not recognised, a string when the lists do not correspond"""
    t = q.norm(t)
    while t.op == "field" and t.args[1] == "0":
        t = t.args[0]
    if nm(t) == "pairing" and len(t.args) == 4:
        return [(t.args[2], t.args[3], None)]
    if nm(t) == "final_exponentiation":
        return pairing_parts(q, t.args[2])
    if nm(t) in ("multi_pairing", "multi_miller_loop") and len(t.args) == 4:
        a, b = q.seq(t.args[2]), q.seq(t.args[3])
        out = []
        for x, y in itertools.zip_longest(a, b):
            if x is None or y is None:
                return "the operand lists of the pairing have different lengths"
            if x[0] == "one" and y[0] == "one":
                out.append((x[1], y[1], None))
            elif x[0] in ("each", "all") and y[0] in ("each", "all"):
                out.append((x, y, "each"))
            elif {x[0], y[0]} & {"?"}:
                return None
            else:
                return "the operand lists of the pairing do not correspond"
        return out
    return None


def pairing_poly(q, G, t):
    """bilinear form whose vanishing is decided by a boolean term; None when not recognised, a string when it is malformed"""
    t = q.norm(t)
    if t.op == "un" and t.args[0] == "Not":
        return None
    sides = None
    kf = KForm(q)
    if nm(t) in ("is_one", "is_zero") and len(t.args) == 3:
        sides = [t.args[2]]
    elif t.op == "bin" and t.args[0] == "Eq":
        sides = [t.args[1], t.args[2]]
    if sides is None:
        return None
    tot = {}
    for s, side in zip((1, -1), sides):
        side = q.norm(side)
        if nm(side) in ("one", "zero") or side.op == "kconst":
            s = -s if side is sides[0] else s
            continue
        ps = pairing_parts(q, side)
        if not isinstance(ps, list):
            return ps
        for l, r, d in ps:
            if d is not None:
                l, r = kf(nth(q, l)), kf(nth(q, r))
            tot = padd(tot, pmul(G(l), G(r)), s)
    return tot


PAIR = K("pair")


def nth(q, part):
    """the entry of a sequence part at a symbolic position"""
    kf = KForm(q)
    v = part[1] if part[0] == "all" else T("map", part[1], part[2], part[3])
    return kf.at(v, PAIR, {}, {})


def upto_sign(p, want):
    return p == want or p == pneg(want)


# ------------------------------------------------------------ exact values
PURE = {"arg", "field", "index", "slice", "const", "bin", "len", "agg", "end", "fromend", "as", "conv", "cast", "kconst", "fill", "repeat", "un", "isum", "skip", "take", "rev", "elem",
        "idx", "ridx", "K", "map", "min", "max", "iop", "concat", "push", "ext", "chain", "trunc", "resize", "zip", "disc"}


def pure(t, calls=(), memo=None):
    """only data movement, arithmetic and the named calls: two such terms in canonical form that differ have different values"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        return True
    if t in memo:
        return memo[t]
    memo[t] = True
    if t.op == "call":
        ok = nm(t) in calls
    else:
        ok = t.op in PURE
    r = ok and all(pure(a, calls, memo) for a in t.args if isinstance(a, Term))
    memo[t] = r
    return r


def f(t, *names):
    """field access path; digits are tuple positions"""
    for n in names:
        t = field(t, int(n) if n.isdigit() else 10 ** 6, n)
    return t


def same(q, t, want, calls=()):
    """is the value the wanted one: True, False, or None when it cannot be told"""
    kf = KForm(q)
    if callable(want):
        a = q.norm(t)
        return True if want(a) else False if pure(a, calls) else None
    a, b = q.norm(t), q.norm(want)
    if a is b:
        return True
    a, b = cansum(kf, a), cansum(kf, b)
    if a is b:
        return True
    return False if pure(a, calls) else None


def cansum(kf, t, memo=None):
    """canonical integer sums everywhere"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        r = kf.isum(T("bin", t.args[0], cansum(kf, t.args[1], memo), cansum(kf, t.args[2], memo)))
    elif t.op in ("const", "arg"):
        r = t
    else:
        r = T(t.op, *[cansum(kf, x, memo) if isinstance(x, Term) else x for x in t.args])
    memo[t] = r
    return r


def returned(q, exits):
    """alternatives of the successful results, without the Ok/Some wrapper"""
    out = []
    for e in exits:
        for c, v in case_list(q, e):
            v = q.norm(v)
            if v.op == "agg" and v.args[1] in ("Err", "None"):
                continue
            out.append((c, payload(v)))
    return out


def show(t):
    return pp(t, 5) if isinstance(t, Term) else getattr(t, "text", "another value")


def coeffs_of(q, poly):
    """the coefficient vector of a polynomial: field or accessor"""
    g = lambda t: nm(t) == "coeffs" and q.norm(t.args[2]) is q.norm(poly) or t.op == "field" and t.args[1] == "coeffs" and t.args[0] is q.norm(poly)
    g.text = f"coefficients of {pp(poly, 4)}"
    return g


def zero_skip(an, q, s, coeffs):
    """is s the number of leading entries of coeffs that are zero (or a constant 0)"""
    if s is const(0):
        return True
    if s.op == "ridx" and isinstance(s.args[2], tuple) and s.args[2][0] == "iv":
        h = s.args[2][1]
        L = an.loops().get(h)
        if L is None:
            return None
        for l in L[1]:
            ok = False
            for c, lab in q.node_conds(l):
                c = q.norm(c)
                if nm(c) == "is_zero" and lab == 1:
                    x = c.args[2]
                    if x.op in ("index", "elem") and q.norm(x.args[0]) is coeffs:
                        ok = True
            if not ok:
                return False
        return True
    if nm(s) == "count" and find(q, s, lambda t: nm(t) == "take_while"):
        return None
    return None


def msm(rep, an, q, t, bases, scalars, facet, w, calls=()):
    """the term is the multi-scalar multiplication of corresponding entries of the two vectors"""
    t = peel(q, t, "into_affine", "into_group", "into")
    if t.op == "field" and t.args[0].op == "as" and nm(t.args[0].args[0]) == "msm":
        t = t.args[0].args[0]
    if nm(t) in ("unwrap", "expect") and len(t.args) >= 3:
        t = t.args[2]
    if nm(t) not in ("msm", "msm_bigint", "msm_unchecked", "msm_field_elements") or len(t.args) != 4:
        return rep.unk(facet, w, pp(t, 4))
    b, s = q.norm(t.args[2]), q.norm(t.args[3])
    if s.op == "map":
        body = peel(q, s.args[1], "into_bigint")
        if body.op == "elem":
            s = body.args[0]
        else:
            return rep.unk(facet, w, pp(s, 4))
    bo, so = const(0), const(0)
    if b.op == "slice" and b.args[2].op == "end":
        b, bo = b.args[0], b.args[1]
    if s.op == "slice" and s.args[2].op == "end":
        s, so = s.args[0], s.args[1]
    r1 = same(q, b, bases, calls)
    r2 = same(q, s, scalars, calls)
    rep.verdict(r1, facet + "-bases", w, f"bases are {pp(b, 5)}, expected {show(bases)}")
    rep.verdict(r2, facet + "-scalars", w, f"scalars are {pp(s, 5)}, expected {show(scalars)}")
    rep.verdict(True if bo is so else False if pure(bo, ("coeffs",) + tuple(calls)) and pure(so, ("coeffs",) + tuple(calls)) else None, facet + "-offset", w, f"bases start at {pp(bo, 4)} but scalars at {pp(so, 4)}")
    if bo is so:
        z = zero_skip(an, q, bo, s)
        rep.verdict(z, facet + "-skip", w, f"coefficients other than leading zeros are left out ({pp(bo, 4)})")


# ------------------------------------------------------------- call chains
def chain(q, t, stop, pos=0, depth=0):
    """the calls that turned an initial value into t through &mut: [(name, args, call)], loops as ("loop", domain, [...], header).
    stop(t): is t the initial value. None when the history is not a straight sequence"""
    t = q.an.simp(t)
    if stop(t):
        return []
    if depth > 200:
        return None
    if t.op == "out":
        c = t.args[0]
        i = t.args[1]
        if c.op != "call" or not isinstance(i, int) or 2 + i >= len(c.args):
            return None
        r = chain(q, c.args[2 + i], stop, pos, depth + 1)
        return None if r is None else r + [(nm(c), c.args[2:], c)]
    if t.op == "phi":
        lp = q.loop_phi(t)
        if lp is not None:
            h, init, step = lp
            init, step = {q.an.simp(x) for x in init}, {q.an.simp(x) for x in step}
            if len(init) != 1 or len(step) != 1:
                return None
            r = chain(q, init.pop(), stop, pos, depth + 1)
            b = chain(q, step.pop(), lambda x: x is t, pos, depth + 1)
            if r is None or b is None:
                return None
            return r + ([("loop", q.loop_domain(h), b, h)] if b else [])
        ins = {q.an.simp(x) for x in q.an.phi_inputs(t)}
        rs = [chain(q, x, stop, pos, depth + 1) for x in ins]
        if None in rs or not rs:
            return None
        k = 0
        while all(len(r) > k for r in rs) and all(same_call(r[k], rs[0][k]) for r in rs):
            k += 1
        if all(len(r) == k for r in rs):
            return rs[0]
        return rs[0][:k] + [("alt", [r[k:] for r in rs], t)]
    return None


def same_call(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "loop":
        return a[3] == b[3]
    if a[0] == "alt":
        return a[2] is b[2]
    return a[2] is b[2]


def serialised(q, t):
    """x when t is the compressed serialisation of x into an empty buffer"""
    t = q.norm(t)
    if t.op == "out" and nm(t.args[0]) in ("serialize_compressed", "serialize_uncompressed") and t.args[1] == 1:
        c = t.args[0]
        if q.seq(c.args[3]) == [] or nm(c.args[3]) in ("with_capacity", "new"):
            return q.norm(c.args[2])
    return None


# ------------------------------------------------------------- acceptance
class Fact:
    """a condition known to hold whenever the function accepts: pred = (op, a, b) as produced by Q.accept"""
    __slots__ = ("pred", "must", "node")

    def __init__(self, pred, must, node):
        self.pred, self.must, self.node = pred, must, node

    def __repr__(self):
        return f"{'must' if self.must else 'may'} {self.pred[0]} {pp(self.pred[1], 5)} {pp(self.pred[2], 5) if isinstance(self.pred[2], Term) else self.pred[2] or ''}"


def is_const(t, v):
    return t.op == "const" and t.args[0] in ((v,) if not isinstance(v, (tuple, set)) else v)


def accept_points(an, q, exits=None, rejecting=lambda v: False):
    """[(node, edge conditions, value)] of the ways to return something other than false / Err / None"""
    out = []

    def walk(nid, conds, v, seen):
        v = an.simp(v)
        if v.op == "agg" and v.args[1] in ("Ok", "Some"):
            inner = payload(v)
            walk(nid, conds, inner, seen)
            return
        if v.op == "agg" and v.args[1] in ("Err", "None") or is_const(v, 0) or v.op == "undef" or rejecting(v):
            return
        if v.op == "phi" and v not in seen and v.args[0] not in an.loops():
            n = an.nodes[v.args[0]]
            for p, x in an.phis[v].items():
                if p < 0:
                    continue
                labs = an.nodes[p].succ.get(n.id, set()) if an.nodes[p].cond is not None and len(an.nodes[p].succ) > 1 else set()
                c = [(an.nodes[p].cond[0], frozenset(labs))] if labs else []
                walk(p, conds + c, x, seen | {v})
            return
        out.append((nid, conds, v))
    for e in (exits if exits is not None else an.exits()):
        walk(e.id, [], e.exit, frozenset())
    return out


def accept_facts(an, q, exits=None, rejecting=lambda v: False):
    """(facts, points): conditions that hold whenever the function returns true (or Ok(true), or Ok of a value)"""
    pts = accept_points(an, q, exits, rejecting)
    facts = []
    for g in an.guards({p[0] for p in pts}):
        facts.append(Fact(q.accept(g), g.must, g.node))
    # conditions on the accepting edges and on the returned value itself, when common to all accepting ways
    per = []
    for nid, conds, v in pts:
        s = []
        for c, labs in conds:
            s.append(q.pred_of(q.norm(c), set(labs)))
        if not is_const(v, 1):
            s.append(q.pred_of(q.norm(v), {1}))
        per.append(s)
    for p in {x for s in per for x in s}:
        facts.append(Fact(p, all(p in s for s in per), None))
    return facts, pts


def expect(rep, facets_of, facet, w, match, msg):
    """some condition that every acceptance must pass satisfies match(pred); match returns None for a related condition it cannot read"""
    best = False
    for fa in facets_of:
        m = match(fa.pred)
        if m is True and fa.must:
            return rep.verdict(True, facet, w, "")
        if m is None:
            best = None
    return rep.verdict(best, facet, w, msg)


def calls_named(q, t, *names):
    return find(q, t, lambda x: x.op == "call" and nm(x) in names)


def loop_of(an, nid):
    """header of the innermost loop around a node"""
    best = None
    for h, (body, _) in an.loops().items():
        if nid in body and (best is None or len(body) < len(an.loops()[best][0])):
            best = h
    return best


def okof(t):
    """the call whose Ok payload t is"""
    if t.op == "field" and t.args[0].op == "as" and t.args[0].args[1] in ("Ok", "Some"):
        return t.args[0].args[0]
    return None


def items_text(its):
    return "[" + ", ".join(f"{x[0]} per {show(x[1])}: {items_text(x[2])}" if x[0] == "loop" else f"{x[0]}({', '.join(show(y) for y in x[1][1:])})" for x in its) + "]" if its is not None else "?"


# ---------------------------------------------------------- small vectors
def tab(q, t, env, lens, depth=0):
    """entries of a small vector under an integer assignment: ("at", root, i) for entries of the roots (lens gives their lengths), ("any",) for
    entries that were not written, terms otherwise. None when the shape is not recognised, "panic" when a copy does not fit"""
    t = q.norm(t)
    if depth > 60:
        return None
    d = depth + 1
    ev = lambda x: ieval(q, q.norm(x), env)

    def sub(x):
        return tab(q, x, env, lens, d)
    if t in lens:
        return [("at", t, i) for i in range(lens[t])]
    if t.op == "agg" and t.args[0] == "array":
        return list(t.args[3:])
    if t.op in ("fill", "repeat"):
        n = ev(t.args[1]) if isinstance(t.args[1], Term) else ev(T("kconst", t.args[1], ())) if not str(t.args[1]).isdigit() else int(t.args[1])
        return None if n is None else [t.args[0]] * n
    if t.op == "phi":
        lp = q.loop_phi(t)
        if lp is not None and len({q.an.simp(x) for x in lp[1]}) == 1:
            v = sub(lp[1][0])
            return v if not isinstance(v, list) else [("any",)] * len(v)
        return None
    if t.op == "store":
        v = sub(t.args[0])
        if not isinstance(v, list) or len(t.args[1]) != 1:
            return v if v == "panic" else None
        p = t.args[1][0]
        if p[0] == "idx":
            i = len(v) - ev(p[1].args[0]) if p[1].op == "fromend" and ev(p[1].args[0]) is not None else ev(p[1])
            if i is None:
                return None
            if not 0 <= i < len(v):
                return "panic"
            return v[:i] + [t.args[2]] + v[i + 1:]
        if p[0] == "rng":
            lo, hi = ev(p[1]), len(v) if p[2].op == "end" else ev(p[2])
            x = t.args[2]
            src = None
            if x.op == "out" and nm(x.args[0]) in ("copy_from_slice", "clone_from_slice"):
                src = sub(x.args[0].args[3])
            elif x.op == "out" and nm(x.args[0]) == "fill":
                src = [x.args[0].args[3]] * (hi - lo) if lo is not None and hi is not None else None
            if lo is None or hi is None or not isinstance(src, list):
                return "panic" if src == "panic" else None
            if lo > hi or hi > len(v) or len(src) != hi - lo:
                return "panic"
            return v[:lo] + src + v[hi:]
        return None
    if t.op == "vinsert":
        v, i = sub(t.args[0]), ev(t.args[1])
        if not isinstance(v, list) or i is None:
            return v if v == "panic" else None
        return "panic" if not 0 <= i <= len(v) else v[:i] + [t.args[2]] + v[i:]
    if t.op == "push":
        v = sub(t.args[0])
        return v + [t.args[1]] if isinstance(v, list) else v
    if t.op in ("chain", "ext", "concat"):
        parts = t.args[0].args[3:] if t.op == "concat" and t.args[0].op == "agg" else t.args[:2]
        vs = [sub(x) for x in parts]
        return "panic" if "panic" in vs else None if None in vs else sum(vs, [])
    if t.op in ("slice", "skip", "take", "trunc", "resize", "rev"):
        v = sub(t.args[0])
        if not isinstance(v, list):
            return v
        if t.op == "rev":
            return v[::-1]
        k = ev(t.args[1])
        if k is None:
            return None
        if t.op == "slice":
            hi = len(v) if t.args[2].op == "end" else ev(t.args[2])
            return None if hi is None else v[k:hi] if k <= hi <= len(v) else "panic"
        if t.op == "resize":
            return v[:k] + [t.args[2]] * (k - len(v))
        return v[k:] if t.op == "skip" else v[:k]
    if t.op == "call" and nm(t) == "once":
        return [t.args[2]]
    if t.op == "filter" and t.args[0].op == "enumerate":
        # entries of an enumerated vector whose position satisfies a condition
        v = sub(t.args[0].args[0])
        if not isinstance(v, list):
            return v
        out = []
        for i, x in enumerate(v):
            ok = ieval(q, q.norm(t.args[1]), {**env, T("idx", t.args[0].args[0], t.args[2]): i})
            if ok is None:
                return None
            if ok:
                out.append(x)
        return out
    if t.op == "map":
        v = sub(t.args[0])
        if not isinstance(v, list):
            return v
        return [("map", strip_sites(t.args[1]), x) for x in v]
    return None


def alts(q, t, seen=()):
    """possible values of a term, taking joins apart and dropping inputs that contradict the branch they come from"""
    t = q.an.simp(t)
    if t.op != "phi" or t.args[0] in q.an.loops() or t in seen:
        return [t]
    out = []
    for p, v in q.an.phis[t].items():
        if p < 0 or v.op == "undef":
            continue
        if contradicts(q, v, p):
            continue
        for x in alts(q, v, seen + (t,)):
            if x not in out and not contradicts(q, x, p):
                out.append(x)
    return out


def contradicts(q, v, p):
    """v is the payload of a variant that is not the one taken on the way to node p"""
    if v.op != "field" or v.args[0].op != "as":
        return False
    x, var = v.args[0].args[:2]
    for c, lab in q.node_conds(p):
        if c.op == "disc" and q.an.simp(c.args[0]) is q.an.simp(x):
            names = dict(c.args[1])
            if isinstance(lab, tuple):
                if var in {names.get(str(i)) for i in lab[1]}:
                    return True
            elif names.get(str(lab)) not in (None, var):
                return True
    return False


def variant_at(q, nid, x):
    """variants a value can have at a node"""
    got = None
    x = q.norm(x)
    for c, lab in q.node_conds(nid):
        if c.op == "disc" and q.norm(c.args[0]) is x:
            names = dict(c.args[1])
            s = {v for k, v in names.items() if k not in {str(i) for i in lab[1]}} if isinstance(lab, tuple) else {names.get(str(lab))}
            got = s if got is None else got & s
    return got


def final(n, i):
    """value behind the &mut parameter i when the function returns through n"""
    return n.end.get((0, -i))


def iteration_ok(q, header, classify, env):
    """can an iteration complete when the classified integers have these values: True, False or None"""
    ps = q.loop_paths(header)
    if ps is None:
        return None
    some = False
    for p in ps:
        r = True
        for c, lab in q.conds_on(p, header):
            c = q.norm(c)
            at = q.iatoms(c)
            if not at or any(classify(a) is None for a in at):
                continue
            v = ieval(q, c, {a: env[classify(a)] for a in at})
            if v is None:
                continue
            ok = v not in lab[1] if isinstance(lab, tuple) else v == int(lab)
            if not ok:
                r = False
                break
        some = some or r
    return some


def entries_are(q, got, want):
    """compare tabulated entries; want may contain predicates"""
    if not isinstance(got, list):
        return None if got is None else False
    if len(got) != len(want):
        return False
    r = True
    for g, w in zip(got, want):
        if callable(w):
            x = w(g)
        elif isinstance(g, Term) and isinstance(w, Term):
            x = q.norm(g) is q.norm(w)
        else:
            x = g == w
        if x is None:
            r = None if r else r
        elif not x:
            return False
    return r


def outcomes(q, n, v=None, depth=0, split=False):
    """[(conditions, value)] a (composite) value can have at a node: joins are taken apart for all their values at once;
    with split also the last join before the node when the value is the same on all its edges"""
    v = q.an.simp(n.exit if v is None else v)
    if split:
        m = n
        while len(m.pred) == 1 and m.id not in q.an.loops() and min(m.pred) >= 0:
            m = q.an.nodes[next(iter(m.pred))]
        if len(m.pred) > 1 and m.id not in q.an.loops() and not any(t.op == "phi" and t.args[0] == m.id for t in q.an.subterms(v, False)):
            return [(tuple(c) + tuple(c2), x) for p in m.pred if p >= 0 for c in q.path_conds(p, m.id) for c2, x in outcomes(q, q.an.nodes[p], v, depth + 1)]
    loops = q.an.loops()
    ps = [t for t in q.an.subterms(v, False) if t.op == "phi" and t.args[0] not in loops and t in q.an.phis and t.args[0] >= 0]
    if not ps or depth > 8:
        return [((), v)]
    idom = q.an.dom()

    def rank(x):
        k = 0
        while x and x in idom and idom[x] != x:
            x, k = idom[x], k + 1
        return k
    top = max({t.args[0] for t in ps}, key=lambda x: (x == n.id, rank(x)))
    mine = [t for t in ps if t.args[0] == top]
    out = []
    for p in q.an.nodes[top].pred:
        w = v
        for t in mine:
            x = q.an.phis[t].get(p)
            if x is None:
                w = None
                break
            w = replace(w, t, x)
        if w is None:
            continue
        for c2, v2 in outcomes(q, q.an.nodes[p], w, depth + 1):
            for c in q.path_conds(p, top):
                out.append((tuple(c) + tuple(c2), v2))
        if len(out) > 300:
            return out
    return out


def array_of(t):
    """the elements of an array literal"""
    return list(t.args[3:]) if t.op == "agg" and t.args[0] == "array" else list(t.args) if t.op == "array" else None


def unless(an, q, nid, exits):
    """when a node is left out although the function goes on to one of the exits: (predicates, loops). Predicates lead around the node, in its iteration or
    around a loop that contains it; loops are (domain, predicates that leave the loop early)"""
    preds, loops, cur = [], [], nid
    while True:
        around = sorted(((len(b), h) for h, (b, _) in an.loops().items() if cur in b and h != cur))
        h = around[0][1] if around else None
        body, ends = an.loops()[h] if h is not None else (None, {n.id for n in exits})
        inside = lambda x: body is None or x in body

        def flood(todo, nxt):
            seen = set()
            while todo:
                x = todo.pop()
                if x in seen or x == cur or not inside(x):
                    continue
                seen.add(x)
                todo += [y for y in nxt(x) if y >= 0]
            return seen
        fwd = flood([h if h is not None else 0], lambda x: [y for y in an.nodes[x].succ if y != h])
        back = flood(list(ends), lambda x: list(an.nodes[x].pred) if x != h else [])
        reach = set()
        todo = [cur]
        while todo:
            x = todo.pop()
            if x in reach or not inside(x):
                continue
            reach.add(x)
            if x != h:
                todo += [y for y in an.nodes[x].pred if y >= 0]
        for b in sorted(fwd & back):
            n = an.nodes[b]
            go = [s for s in n.succ if s in back and s in fwd]
            if n.cond is None or len(n.succ) < 2 or not go or not any((s in reach or s == cur) and s not in back for s in n.succ):
                continue
            for s in go:
                l = q.labels(n, n.succ[s])
                c = q.norm(n.cond[0])
                if l is None:
                    preds.append(("in", c, None))
                elif isinstance(l, tuple):
                    every = {int(k) for k, _ in c.args[1]} if c.op == "disc" else {0, 1}
                    preds.append(q.pred_of(c, every - set(l[1])))
                else:
                    preds.append(q.pred_of(c, {l}))
        if h is None:
            return preds, loops
        oks = {n.id for n in exits}
        loops.append((q.loop_domain(h), [c for c, n in q.early_exits(h) if any(t not in body and oks & set(an.reachable([t])) for t in n.succ)]))
        cur = h
