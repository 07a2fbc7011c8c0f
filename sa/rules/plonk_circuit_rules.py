"""jf-plonk: the verifier written as a circuit."""
import random
import re
from common import *
from algebra import *
from say import *
from core import check

C = "jf_plonk"
Q = (1 << 521) - 1
OPS = set("""mod_mul mod_mul_constant mod_add mod_add_constant mod_add_vec mod_negate new_unchecked new_from_field_element new field_switching witness enforce_equal inverse_point inverse
 non_native_power_5_gen convert_to_var one msm create_point_variable create_constant_point_variable ecc_add range_bit_len from_le_bytes_mod_order from""".split())
PARTS = set("""evaluate_pi_poly_circuit linearization_scalars_and_bases_circuit aggregate_poly_commitments_circuit aggregate_evaluations_circuit compute_lin_poly_constant_term_circuit
 evaluate_poly_helper compute_alpha_basis compute_challenges_vars prepare_pcs_info_var merge""".split())


class Shape(Exception):
    pass


class Other(Exception):
    pass


def arith(say, t):
    """arithmetic modulo the right number as arithmetic; elements of the circuit made from values as wit(value)"""
    if t.op == "kconst" and t.args[0].rsplit("::", 1)[-1] in ("MODULUS", "MODULUS_BIT_SIZE") and len(t.args[1]) == 1:
        return f"{t.args[0].rsplit('::', 1)[-1]}{{{t.args[1][0]}}}"
    if t.op != "call":
        return None
    n = nm(t)
    a = [x for x in t.args[2:] if isinstance(x, Term) and not say.state(x)]
    at = lambda i: say.text(a[i])
    split = lambda i: (at(i), at(i + 1)) == ("info.m", "info.two_power_m") or at(i + 1) == f"Some(pow(2,[{at(i)}]))"
    modulus = lambda i: at(i) in ("info.modulus_fp_elem", "modulus", "p")
    if n in ("mod_mul", "mod_mul_constant", "mod_add", "mod_add_constant") and len(a) == 3 and modulus(2):
        return (nmul if "mul" in n else nadd)(say.poly(a[0]), say.poly(a[1]))
    if n == "mod_add_vec" and len(a) == 2 and modulus(1):
        xs = array_of(say.q.norm(a[0]))
        if xs is None:
            return "sum" + at(0)
        r = {}
        for x in xs:
            r = nadd(r, say.poly(x))
        return r
    if n == "mod_negate" and len(a) == 2 and at(1) in ("info.modulus_in_f", "p.modulus"):
        return nadd({}, say.poly(a[0]), -1)
    if n == "new_from_field_element" and len(a) == 3 and split(1):
        return f"wit({at(0)})"
    if n == "new_unchecked" and len(a) == 3 and split(1):
        return say.poly(a[0])
    if n == "one" and "FpElemVar" in str(t.args[0]) and len(a) == 2 and split(0):
        return {(): 1}
    if n == "one" and not a:
        return {(): 1}
    if n in ("field_switching", "witness", "create_constant_point_variable", "create_point_variable", "convert_to_var") and len(a) == 1:
        return say.poly(a[0])
    if n == "new" and "FpElem" in str(t.args[0]) and len(a) == 3 and split(1):
        return "modulus" if re.fullmatch(r"from_le_bytes_mod_order\(to_bytes_le\(MODULUS\{<E as .*>::ScalarField\}\)\)", at(0)) else say.poly(a[0])
    if n in ("inverse_point", "inverse") and len(a) == 1:
        return nadd({}, say.poly(a[0]), -1)
    if n == "ecc_add" and len(a) == 2:
        return nadd(say.poly(a[0]), say.poly(a[1]))
    if n == "non_native_power_5_gen" and len(a) == 1 and any("ScalarField" in str(x) for x in t.args[1:2]):
        x = say.poly(a[0])
        y = nmul(x, x)
        return nmul(nmul(y, y), x)
    if n == "from" and len(a) == 1:
        return say.poly(a[0])
    return None


class Model:
    """texts of values read as functions of what they name, and compared at random numbers"""

    def __init__(self, env, free=False, fns=None):
        self.env, self.free, self.fns, self.code = env, free, fns or {}, {}
        self.unknown = {}
        self.rnd = random.Random(11)

    def wit(self, v):
        """an element of the circuit with this value, which equations have to tie to it"""
        if v not in self.unknown:
            self.unknown[v] = self.rnd.randrange(1, Q)
        return self.unknown[v]

    def __call__(self, s, binders=(), ps=()):
        return self.ev(s, list(binders), dict(ps), self.free)

    # binders: [letter, text of the list, place in it, place in its part, part]; ps: values so far
    def ev(self, s, bs, ps, free):
        f = self.code.get(s)
        if f is None:
            f = self.code[s] = self.parse(s.strip())
        return f(bs, ps, free)

    def small(self, v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Shape("a number")
        v %= Q
        return v - Q if v > Q // 2 else v

    def entries(self, d, bs, ps, free):
        """(place, place in its part, part) for all the entries of a list"""
        if d.startswith("[") and close(d, 0) == len(d) - 1:
            out = []
            for k, x in enumerate(parts(d[1:-1]) if d != "[]" else []):
                n = len(self.entries(x[1:], bs, ps, free)) if x.startswith("*") else self.count(x, bs, ps, free)
                out += [(len(out) + j, j, k) for j in range(n)]
            return out
        xs = parts(d, "&")
        if len(xs) > 1:
            return min((self.entries(x, bs, ps, free) for x in xs), key=len)
        m = re.fullmatch(r"Range\((.*)\)", d)
        ab = parts(m.group(1)) if m else parts(d, "..")
        if len(ab) == 2:
            a, b = (self.small(self.ev(x, bs, ps, free)) for x in ab)
            return [(j, j, 0) for j in range(max(b - a, 0))]
        v = self.ev(d, bs, ps, free)
        if not isinstance(v, list):
            raise Shape("a list: " + d[:100])
        return [(j, j, 0) for j in range(len(v))]

    def count(self, x, bs, ps, free):
        return len(self.listed([x], bs, ps, free))

    def over(self, l, d, bs, ps, free):
        for t in self.entries(d, bs, ps, free):
            yield bs + [[l, d, *t]]

    def listed(self, xs, bs, ps, free):
        out = []
        for x in xs:
            if x.startswith("*"):
                v = self.ev(x[1:], bs, ps, free)
                if not isinstance(v, list):
                    raise Shape("a list")
                out += v
            elif x.startswith("{") and close(x, 0) == len(x) - 1:
                y = x[1:-1]
                m = parts(y, " for ")
                if len(m) >= 2:
                    l, _, d = m[-1].partition(" in ")
                    for b in self.over(l, d, bs, ps, free):
                        out += self.listed(parts(" for ".join(m[:-1])), b, ps, free)
                    continue
                m = parts(y, " x ")
                if len(m) != 2:
                    raise Shape("entries: " + x[:100])
                out += [self.ev(m[0], bs, ps, free)] * self.small(self.ev(m[1], bs, ps, free))
            else:
                out.append(self.ev(x, bs, ps, free))
        return out

    def parse(self, s):
        ev = self.ev
        xs = parts(s, " + ")
        if len(xs) > 1:
            return lambda b, p, f: sum(self.num(ev(x, b, p, f)) for x in xs) % Q
        xs = parts(s, "*")
        if len(xs) > 1 and not s.startswith("*"):
            def product(b, p, f):
                r = 1
                for x in xs:
                    r = r * self.num(ev(x, b, p, f)) % Q
                return r
            return product
        if s.startswith("-") and len(s) > 1:
            return lambda b, p, f: -self.num(ev(s[1:], b, p, f)) % Q
        if re.fullmatch(r"\d+", s):
            return lambda b, p, f: int(s)
        if s in ("True", "False"):
            return lambda b, p, f: s == "True"
        if s.startswith("1/(") and close(s, 2) == len(s) - 1:
            return lambda b, p, f: pow(self.num(ev(s[3:-1], b, p, f)), -1, Q)
        # something, and a part of it or a change of it
        i = self.last(s)
        if i > 0:
            base, rest = s[:i], s[i:]
            if rest.startswith("."):
                def field(b, p, f):
                    v = ev(base, b, p, f)
                    if not isinstance(v, dict) or rest[1:] not in v:
                        raise Shape("a part: " + s[-100:])
                    return v[rest[1:]]
                return field
            if rest.startswith("{"):
                return lambda b, p, f: self.edited(ev(base, b, p, f), rest[1:-1], b, p, f)
            if rest.startswith("["):
                x = parts(rest[1:-1], ":")
                if len(x) == 2 or rest[1:-1].endswith(":") or rest[1:-1].startswith(":"):
                    lo, hi = (rest[1:-1].split(":") + [""])[:2] if len(x) != 2 else x
                    def cut(b, p, f):
                        v = ev(base, b, p, f)
                        if not isinstance(v, list):
                            raise Shape("a list: " + base[-100:])
                        return v[self.small(ev(lo, b, p, f)) if lo else 0:self.small(ev(hi, b, p, f)) if hi else len(v)]
                    return cut
                def entry(b, p, f):
                    v, k = ev(base, b, p, f), self.small(ev(rest[1:-1], b, p, f))
                    if not isinstance(v, list) or not -len(v) <= k < len(v):
                        raise Shape("an entry: " + s[-100:])
                    return v[k]
                return entry
        if s.startswith("[") and close(s, 0) == len(s) - 1:
            xs = parts(s[1:-1]) if s != "[]" else []
            return lambda b, p, f: self.listed(xs, b, p, f)
        if s.startswith("(") and close(s, 0) == len(s) - 1:
            xs = parts(s[1:-1])
            return (lambda b, p, f: [ev(x, b, p, f) for x in xs]) if len(xs) > 1 else lambda b, p, f: ev(s[1:-1], b, p, f)
        m = re.match(r"(\w+)([(\[])", s)
        if m and close(s, m.end() - 1) == len(s) - 1:
            return self.applied(m.group(1), s[m.end():-1] if m.group(2) == "(" else s[m.end() - 1:])

        def name(b, p, f):
            for x in reversed(b):
                if x[0] == s:
                    return x[2]
            if s in p:
                return p[s]
            if s in self.env:
                return self.env[s]
            raise Shape("a name: " + s[:100])
        return name

    def num(self, v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Shape("a number")
        return v

    def last(self, s):
        """where the last part of a place starts"""
        if s.endswith(("]", "}")):
            depth = 0
            for i in range(len(s) - 1, -1, -1):
                depth += s[i] in ")]}"
                depth -= s[i] in "([{"
                if depth == 0:
                    return i if not re.fullmatch(r"\w*", s[:i]) or re.fullmatch(r"(?!sum)[A-Za-z_]\w*", s[:i]) else 0
        m = re.search(r"\.\w+$", s)
        return m.start() if m and m.start() > 0 else 0

    def applied(self, fn, a):
        ev = self.ev
        if fn == "sum":
            return lambda b, p, f: sum(map(self.num, ev(a, b, p, f))) % Q
        if fn == "wit":
            return lambda b, p, f: self.wit(ev(a, b, p, False)) if f else ev(a, b, p, False)
        if fn in ("Ok", "Some", "every", "reveal"):
            return lambda b, p, f: ev(a, b, p, f)
        if fn == "len":
            def length(b, p, f):
                v = ev(a, b, p, f)
                if not isinstance(v, list):
                    raise Shape("a length")
                return len(v)
            return length
        if fn == "alt":
            xs = parts(a, ",")
            def alt(b, p, f):
                x = next((x for x in reversed(b) if x[1].startswith("[") and re.search(r"\b%s\b" % x[0], a)), None)
                if x is None or x[4] >= len(xs):
                    raise Shape("an alternative")
                return ev(xs[x[4]], [[*y[:2], y[3], *y[3:]] if y is x else y for y in b], p, f)
            return alt
        if fn in ("fold", "runfold"):
            d, _, rest = a.partition(": ") if ": " not in a.split("{")[0] else (parts(a, ": ")[0], "", a[len(parts(a, ": ")[0]) + 2:])
            init, step = parts(rest, "; ")
            return lambda b, p, f: self.fold(d, init, step, b, p, f)
        if fn == "while":
            xs = parts(a, "; ")
            rows = [x.partition(": ") for x in xs[1:-1]]
            rows = [(k, *parts(v, " -> ")) for k, _, v in rows]
            def loop(b, p, f):
                st = {k: ev(i, b, p, f) for k, i, _ in rows}
                for _ in range(64):
                    if not self.holds(xs[-1], b, {**p, **st}, f):
                        return ev(xs[0], b, {**p, **st}, f)
                    st = {k: ev(x, b, {**p, **st}, f) for k, _, x in rows}
                raise Shape("a loop that does not end")
            return loop
        if fn == "either":
            xs = [parts(x, " -> ") for x in parts(a, " | ")]
            def either(b, p, f):
                for c, v in xs:
                    if all(self.holds(x, b, p, f) for x in parts(c, " & ")):
                        return ev(v, b, p, f)
                raise Shape("no alternative")
            return either
        if fn == "size" and a == "domain":
            return lambda b, p, f: self.env["size"]
        if fn in self.fns:
            xs = parts(a, ",") if a else []
            return lambda b, p, f: self.fns[fn](xs, *[ev(x, b, p, f) if x not in ("info", "msg", "None()") else x for x in xs])
        if re.match(r"[A-Z]\w*$", fn) and "=" in a:
            xs = [x.partition("=") for x in parts(a)]
            return lambda b, p, f: {k: ev(v, b, p, f) for k, _, v in xs}
        raise Shape(f"a call of {fn}")

    def holds(self, c, b, p, f):
        if c.startswith("not "):
            return not self.holds(c[4:], b, p, f)
        for op in (" == ", " != ", " <= ", " >= ", " < ", " > "):
            x = parts(c, op)
            if len(x) == 2:
                u, v = (self.small(self.ev(y, b, p, f)) for y in x)
                return {" == ": u == v, " != ": u != v, " <= ": u <= v, " >= ": u >= v, " < ": u < v, " > ": u > v}[op]
        v = self.ev(c, b, p, f)
        if not isinstance(v, bool):
            raise Shape("a condition: " + c[:100])
        return v

    def fold(self, d, init, step, b, p, f):
        k = next((i for i in range(len(b) - 1, -1, -1) if b[i][1] == d), None)
        outer = b if k is None else b[:k]   # where the loop starts
        own = p.get("#", -1)
        me = own + 1 if own >= 0 else min(int(x) for x in re.findall(r"\bp(\d+)\b", step)) if re.search(r"\bp\d+\b", step) else 0
        r = self.ev(init, outer, p, f)
        l = b[k][0] if k is not None else "ijklm"[min(len({x[0] for x in outer}), 4)]
        for x in self.over(l, d, outer, p, f):
            if k is not None and x[-1][2] >= b[k][2]:
                break
            r = self.ev(step, x, {**p, f"p{me}": r, "#": me}, f)
        return r

    def edited(self, v, s, b, p, f):
        """a structure after changes of its parts"""
        for o in parts(s, "; "):
            m = re.match(r"for (\w) in ", o)
            if m:
                i = next(i for i in range(len(o)) if o[i] == "{" and close(o, i) == len(o) - 1)
                it = "it" + "'" * sum(1 for x in p if re.fullmatch(r"it'*", x))
                for x in self.over(m.group(1), o[m.end():i].strip(), b, p, f):
                    v = self.edited(v, o[i + 1:-1], x, {**p, it: v}, f)
                continue
            m = re.match(r"\.(\w+) := ", o)
            if m and isinstance(v, dict) and m.group(1) in v:
                v = {**v, m.group(1): self.ev(o[m.end():], b, p, f)}
                continue
            if o.startswith("push ") and isinstance(v, list):
                v = v + [self.ev(o[5:], b, p, f)]
                continue
            raise Shape("a change: " + o[:100])
        return v


def same(r, facet, msg, got, want):
    """the value that is computed is the value of the formula"""
    try:
        v = got()
    except (Shape, Unknown, ValueError) as e:
        return r.rep.verdict(None, facet, r.w, f"{msg}: {str(e)[:300]}")
    except Other as e:
        return r.rep.verdict(False, facet, r.w, f"{msg}: {str(e)[:300]}")
    r.rep.verdict(v == want, facet, r.w, msg)


def result(r):
    xs = {r.say.text(v) for _, v in r.cases()}
    if len(xs) != 1:
        raise Shape("several results")
    return xs.pop()


def total(v):
    """the sum that scalars and bases stand for"""
    if not isinstance(v, dict) or len(v["scalars"]) != len(v["bases"]):
        raise Shape("scalars and bases that differ in number")
    return sum(a * b for a, b in zip(v["scalars"], v["bases"])) % Q


def equations(r, m, name="enforce_equal"):
    """values of the differences that are made zero in every case: with elements unknown, and with them as they are made"""
    out = []
    for t in r.calls(name):
        if isinstance(t, Unknown):
            raise Shape(str(t))
        if " if " in t or t.endswith(" sometimes"):
            continue
        fs = parts(t, " for ")
        a, b = parts(fs[0], ",")
        bss = [[]]
        for x in fs[1:]:
            l, _, d = x.partition(" in ")
            bss = [y for bs in bss for y in m.over(l, d, bs, {}, True)]
        for bs in bss:
            out.append(tuple((m.num(m.ev(a, bs, {}, f)) - m.num(m.ev(b, bs, {}, f))) % Q for f in (True, False)))
    return out


def modulo(r, m, want):
    """a list of values that are equal to these, or made equal by one of the equations"""
    got, eqs = m(result(r)), equations(r, m)
    if not isinstance(got, list) or len(got) != len(want):
        raise Shape("a list")
    zero = {0} | {x for x, _ in eqs} | {-x % Q for x, _ in eqs}
    return [w if (m.num(g) - w) % Q in zero else g for g, w in zip(got, want)]


def refuses(r, facet, msg, good, *bads):
    """conditions of the accepting results: they hold for good values of the arguments, not for bad ones"""
    ps, dim = r.preds(), False

    def all_of(p, m):
        c, *fs = parts(p, " for ")
        bss = [[]]
        for x in fs:
            l, _, d = x.partition(" in ")
            bss = [y for bs in bss for y in m.over(l, d, bs, {}, False)]
        return all(m.holds(c, bs, {}, False) for bs in bss)
    for k, e in enumerate((good, *bads)):
        m, no = Model(e), False
        for p in ps:
            if p is not None and re.search(r" is (Ok|Some|None)( for |$)", p):
                continue
            try:
                no = no or not all_of(p, m)
            except (Shape, Unknown, ValueError, TypeError, KeyError):
                dim = True
            except AttributeError:
                dim = True
        if k == 0 and no:
            return r.rep.verdict(False, facet, r.w, f"{msg}: valid arguments are refused")
        if k and not no:
            return r.rep.verdict(None if dim else False, facet, r.w, msg)
    r.rep.verdict(True, facet, r.w, msg)


def tied(r, facet, msg, m, wants):
    try:
        got = equations(r, m)
    except (Shape, Unknown, ValueError) as e:
        return r.rep.verdict(None, facet, r.w, f"{msg}: {str(e)[:300]}")
    have = {x for x, _ in got} | {-x % Q for x, _ in got}
    r.rep.verdict(all(w % Q in have for w in wants), facet, r.w, f"{msg}: {sum(w % Q not in have for w in wants)} of {len(wants)} equations are missing")
    r.rep.verdict(all(y == 0 for _, y in got), facet, r.w, f"{msg}: an equation does not hold for the values computed")


def world(n, rnd):
    """a batch of n instances"""
    R = lambda: rnd.randrange(2, Q)
    L = lambda k: [R() for _ in range(k)]
    ch = dict(alphas=L(3), beta=R(), gamma=R(), zeta=R(), v=R(), u=R())
    vks = [dict(k=L(5), sigma_comms=L(5), selector_comms=L(13), is_merged=False, domain_size=8, num_inputs=4) for _ in range(n)]
    proof = dict(wires_poly_comms_vec=[L(5) for _ in range(n)], prod_perm_poly_comms_vec=L(n),
                 poly_evals_vec=[dict(wires_evals=L(5), wire_sigma_evals=L(4), perm_next_eval=R()) for _ in range(n)],
                 split_quot_poly_comms=L(5), opening_proof=R(), shifted_opening_proof=R())
    return dict(ch=ch, vks=vks, proof=proof, evals=L(3), bases=L(n), n=8, info={}, zeta=ch["zeta"])


def prod(xs):
    r = 1
    for x in xs:
        r = r * x % Q
    return r


SIZES = (1, 2, 3)


def vanishing(R):
    r = R("evaluate_poly_helper", None, "cs zeta n info")
    if not r.ok:
        return
    for n in (1, 8, 32):
        z = random.Random(n).randrange(2, Q)
        m = Model(dict(zeta=z, n=n, info={}), True)
        zn = pow(z, n, Q)
        l1 = (zn - 1) * pow(n * (z - 1), -1, Q) % Q
        u1, u2, u3 = m.wit((zn - 1) % Q), m.wit(l1), m.wit((z - 1) % Q)
        same(r, "vanishing", "the power of the evaluation point, the vanishing polynomial and the first Lagrange polynomial at it", lambda: modulo(r, m, [zn, u1, u2]), [zn, u1, u2])
        tied(r, "vanishing-tied", "the values at the evaluation point follow from it", m, [u1 + 1 - zn, u3 + 1 - z, n * u2 * u3 - u1])


def powers(R):
    r = R("compute_alpha_basis", None, "cs a3 len info")
    if r.ok:
        for n in SIZES:
            same(r, "powers", "the factors of the instances are the powers of the cube of the challenge", lambda: Model(dict(a3=5, len=n, info={}))(result(r)), [5 ** i for i in range(n)])
    r = R("challenge_var_to_fp_elem_var", None, "cs ch info")
    if r.ok:
        ch = dict(alpha=3, beta=5, gamma=7, zeta=11, v=13, u=17)
        same(r, "challenges", "challenges as elements", lambda: Model(dict(ch=ch, info={}))(result(r)), dict(alphas=[3, 9, 27], **{k: v for k, v in ch.items() if k != "alpha"}))


def inputs(R):
    r = R("evaluate_pi_poly_circuit", None, "cs n pub zeta zh merged info")
    if not r.ok:
        return
    refuses(r, "inputs-merged", "public inputs are those of a merged circuit", dict(merged=True, n=8, pub=[1, 2], zeta=1, zh=2, info={}), dict(merged=False, n=8, pub=[1, 2], zeta=1, zh=2, info={}))
    G = 1234567
    for k in (0, 1, 2):
        rnd = random.Random(k)
        pub = [rnd.randrange(2, Q) for _ in range(2 * k)]
        z, zh, n = rnd.randrange(2, Q), rnd.randrange(2, Q), 8
        m = Model(dict(pub=pub, zeta=z, zh=zh, n=n, merged=True, info={}), True, dict(new=lambda t, x: ("domain", x), element=lambda t, d, i: pow(G, m.small(i), Q)))
        eqs, lag = [], {}
        for i in [*range(k), *range(n - k, n)]:
            g = pow(G, i, Q)
            v = zh * g * pow(n, -1, Q) % Q
            d = m.wit((z - g) % Q)
            lag[i] = m.wit(v * pow(z - g, -1, Q) % Q)
            eqs += [d + g - z, lag[i] * d - v]
        want = sum(lag[i] * pub[i] + lag[n - 1 - i] * pub[k + i] for i in range(k)) % Q
        same(r, "inputs", "the value of the public inputs at the evaluation point", lambda: m(result(r)), want)
        tied(r, "inputs-tied", "Lagrange polynomials at the evaluation point follow from it", m, eqs)


def constant(R):
    r = R("compute_lin_poly_constant_term_circuit", None, "cs n ch vks pubs proof evals bases info")
    if not r.ok:
        return
    e = world(3, random.Random(3))
    refuses(r, "constant-inputs", "all instances have the same public inputs", {**e, "pubs": [7, 7, 7]}, {**e, "pubs": [7, 7, 8]}, {**e, "pubs": [7, 8, 7]}, {**e, "pubs": [8, 7, 7]})
    for n in SIZES:
        e = world(n, random.Random(n))
        e["pubs"] = [[2, 3]] * n
        PI = 987654321
        m = Model(e, True, dict(evaluate_pi_poly_circuit=lambda t, *a: PI if list(a) == [8, [2, 3], e["ch"]["zeta"], e["evals"][1], True, "info"] else PI + 1))
        ch, out, eqs = e["ch"], 0, []
        for i in range(n):
            ev = e["proof"]["poly_evals_vec"][i]
            w, s = ev["wires_evals"], ev["wire_sigma_evals"]
            t = ch["alphas"][0] * prod(a + ch["beta"] * b + ch["gamma"] for a, b in zip(w[:4], s)) * (w[4] + ch["gamma"]) * ev["perm_next_eval"] % Q
            l = ch["alphas"][1] * e["evals"][2] % Q
            c = m.wit((PI - l - t) % Q)
            eqs.append(c + l + t - PI)
            out += e["bases"][i] * c
        same(r, "constant", "the constant term of the linearisation", lambda: m(result(r)), out % Q)
        tied(r, "constant-tied", "the constant term of every instance follows from the evaluations", m, eqs)


def no(t):
    raise Shape("arguments: " + ", ".join(t)[:200])


def linear(e):
    ch, ev, r = e["ch"], e["evals"], 0
    al, be, ga, z = ch["alphas"], ch["beta"], ch["gamma"], ch["zeta"]
    for i, vk in enumerate(e["vks"]):
        p = e["proof"]["poly_evals_vec"][i]
        w, s = p["wires_evals"], p["wire_sigma_evals"]
        q = w[:4] + [w[0] * w[1], w[2] * w[3]] + [pow(x, 5, Q) for x in w[:4]] + [-w[4], 1, prod(w)]
        c = (al[1] * ev[2] + al[0] * prod(be * z * k + x + ga for k, x in zip(vk["k"], w))) * e["proof"]["prod_perm_poly_comms_vec"][i]
        c -= al[0] * be * p["perm_next_eval"] * prod(x + ga + be * y for x, y in zip(w[:4], s)) * vk["sigma_comms"][4]
        r += e["bases"][i] * (c + sum(a * b for a, b in zip(q, vk["selector_comms"])))
    t = z * z * ev[0]
    return (r - sum(ev[1] * pow(t, i, Q) * c for i, c in enumerate(e["proof"]["split_quot_poly_comms"]))) % Q


def commitments(R):
    r = R("linearization_scalars_and_bases_circuit", None, "cs vks ch evals proof bases info")
    g = R("aggregate_poly_commitments_circuit", None, "cs vks ch evals proof bases info")
    seen = set()
    h = R("aggregate_evaluations_circuit", None, "cs r0 evs info buf", extra=lambda say, t: seen.add(t) or arith(say, t))
    for n in SIZES:
        e = world(n, random.Random(n))
        if r.ok:
            m = Model(e, fns=dict(new=lambda t: dict(scalars=[], bases=[]), non_native_power_5_gen=lambda t, x: x + 1))
            same(r, "linearisation", "factors of the commitments in the linearisation", lambda: total(m(result(r))), linear(e))
        lin = dict(scalars=[3], bases=[4])
        args = [e[k] for k in "vks ch evals proof bases".split()] + ["info"]
        v, u, vs, want = e["ch"]["v"], e["ch"]["u"], [], 12
        a, b = v, u
        for i in range(n):
            for c in e["proof"]["wires_poly_comms_vec"][i] + e["vks"][i]["sigma_comms"][:4]:
                vs.append(a)
                want += a * c
                a = a * v % Q
            vs.append(b)
            want += b * e["proof"]["prod_perm_poly_comms_vec"][i]
            b = b * v % Q
        if g.ok:
            m2 = Model(e, fns=dict(linearization_scalars_and_bases_circuit=lambda t, *a: lin if list(a) == args else dict(scalars=[3], bases=[5])))
            def agg():
                x = m2(result(g))
                if not isinstance(x, list) or len(x) != 2:
                    raise Shape("a pair")
                return total(x[0]), x[1]
            same(g, "commitments", "commitments are added up with the powers of the challenge, and these are handed on in order", agg, (want % Q, vs))
        if h.ok:
            evs = e["proof"]["poly_evals_vec"]
            order = ["-r0"] + [x for i in range(n) for x in [f"w{i}.{j}" for j in range(5)] + [f"s{i}.{j}" for j in range(4)] + [f"z{i}"]]
            same(h, "evaluations", "evaluations are added up in the order of the commitments, each with its own factor", lambda: ordered(result(h), n), order)
    if g.ok:
        e, w = world(3, random.Random(3)), world(2, random.Random(2))
        refuses(g, "commitments-instances", "as many keys as instances", e, {**e, "vks": w["vks"]}, {**w, "vks": e["vks"]})
    if h.ok:
        ps = h.preds()
        rest = "next(buf) is None" in ps
        if not rest and not any(e.name == "Iterator::next" for e in (n.event for n in h.an.nodes) if e) and not any(p and "len(buf)" in p for p in ps):
            h.rep.verdict(False, "evaluations-all", h.w, "all factors are used")
        else:
            h.rep.verdict(rest or None, "evaluations-all", h.w, "all factors are used")
        buf = arg(h.fn, 5)
        taken = {s for s, it in h.an.draws.items() if h.q.norm(it) is buf}
        used = {t.args[1] for t in seen if t.op == "elem" and h.q.norm(t.args[0]) is buf}
        h.rep.verdict(taken == used, "evaluations-factor", h.w, "every factor that is taken is used")


def ordered(s, n):
    """the terms of a sum that is built up step by step, in the order in which they are added; every one but the first takes the next factor"""
    def go(s, i, j, p):
        ps = parts(s, " + ")
        if len(ps) > 1:
            first = [x for x in ps if re.match(r"(run)?fold\(", x) or re.fullmatch(r"p\d+", x)]
            rest = [x for x in ps if x not in first]
            if len(first) != 1 or len(rest) != 1:
                raise Shape("terms added at once")
            return go(first[0], i, j, p) + go(rest[0], i, j, p)
        if re.fullmatch(r"p\d+", s):
            return p[s]
        m = re.match(r"(run)?fold\(", s)
        if m and close(s, m.end() - 1) == len(s) - 1:
            a = s[m.end():-1]
            d, _, rest = a.partition(": ")
            init, step = parts(rest, "; ")
            back, d = d.startswith("rev(") and close(d, 3) == len(d) - 1, re.sub(r"^rev\((.*)\)$", r"\1", d)
            cut = re.fullmatch(r"(evs(?:\[i\]\.wires_evals|\[i\]\.wire_sigma_evals)?)\[(\d*):(\d*)\]", d)
            cnt = {"evs": n, "evs[i].wires_evals": 5, "evs[i].wire_sigma_evals": 4}.get(cut.group(1) if cut else d)
            if cnt is None:
                raise Shape("a list: " + d[:100])
            if back or cut:
                raise Other(f"a part of {d}" if cut else f"{d} backwards")
            r = go(init, i, j, p)
            k = min((int(x) for x in re.findall(r"\bp(\d+)\b", step) if f"p{x}" not in p), default=None)
            for t in range(cnt):
                r = go(step, t if d == "evs" else i, t if d != "evs" else j, {**p, f"p{k}": r})
            return r
        if s in ("-r0", "r0"):
            return [s]
        x = parts(s, "*")
        if len(x) > 1 and any(re.match(r"(run)?fold\(|p\d+$", y) for y in x):
            raise Other("the sum so far is multiplied")
        b = [y for y in x if re.fullmatch(r"buf\[\w\]", y)]
        x = [y for y in x if y not in b]
        if len(b) == 1 and len(x) == 1:
            for k, t in (("wires_evals[j]", f"w{i}.{j}"), ("wire_sigma_evals[j]", f"s{i}.{j}"), ("perm_next_eval", f"z{i}")):
                if x[0] == "evs[i]." + k:
                    return [t]
            return [x[0]]
        raise Shape("a term: " + s[:100])
    if s.startswith("Ok("):
        s = s[3:-1]
    return go(s, None, None, {})


def opening(R):
    r = R("prepare_pcs_info_var", None, "cs vks pubs proof msg domain info")
    if r.ok:
        e = world(2, random.Random(2))
        D = dict(group_gen=23, group_gen_inv=29, size=8, size_inv=31, log_size_of_group=3, size_as_field_element=37, offset=41, offset_inv=43)
        e.update(pubs=[[1, 2, 3, 4]] * 2, domain=D, size=8)
        CH, EV, AB, COMM = dict(zeta=7, u=5, v=3, beta=47, gamma=53, alphas=[59, 61, 67]), [71, 73, 79], [83, 89], {"0": 13, "1": [97, 101]}
        takes = dict(compute_challenges_vars=([e["vks"], e["pubs"], e["proof"], "msg", "info"], CH), evaluate_poly_helper=([7, 8, "info"], EV), compute_alpha_basis=([67, 2, "info"], AB),
                     compute_lin_poly_constant_term_circuit=([8, CH, e["vks"], e["pubs"], e["proof"], EV, AB, "info"], 103),
                     aggregate_poly_commitments_circuit=([e["vks"], CH, EV, e["proof"], AB, "info"], COMM), aggregate_evaluations_circuit=([103, e["proof"]["poly_evals_vec"], "info", [97, 101]], 11))

        def fn(k):
            def f(t, *a):
                if list(a) != takes[k][0]:
                    raise Other(f"{k} of other arguments: {', '.join(t)[:200]}")
                return takes[k][1]
            return f
        got = lambda: Model(e, fns={k: fn(k) for k in takes})(result(r))
        same(r, "opening", "what is opened, where, and to which value", got, dict(u=5, eval_point=7, next_eval_point=161, eval=11, comm_scalars_and_bases=13,
                                                                                   opening_proof=e["proof"]["opening_proof"], shifted_opening_proof=e["proof"]["shifted_opening_proof"]))
        e = world(3, random.Random(3))
        e.update(pubs=[[1, 2, 3, 4]] * 3, msg={}, domain={}, size=8)
        other = lambda k, **kw: {**e, "vks": [{**x, **kw} if i == k else x for i, x in enumerate(e["vks"])]}
        w = world(2, random.Random(2))
        refuses(r, "opening-shape", "as many keys as instances", e, {**e, "proof": w["proof"]})
        refuses(r, "opening-shape", "as many lists of public inputs as keys", e, {**e, "pubs": e["pubs"][:2]}, {**e, "pubs": e["pubs"] * 2})
        refuses(r, "opening-shape", "as many public inputs as the key says", e, *[other(k, num_inputs=x) for k in range(3) for x in (3, 5)])
        refuses(r, "opening-shape", "the domain is the one of every key", e, *[other(k, domain_size=x) for k in range(3) for x in (4, 16)])
    seen = set()
    r = R("partial_verify_circuit", "VerifyingKeyVar", "cs bg g vks pub proof blind", extra=lambda say, t: seen.add(t) or arith(say, t))
    if not r.ok:
        return
    e = world(2, random.Random(2))
    pcs = dict(comm_scalars_and_bases=dict(scalars=[3], bases=[4]), opening_proof=5, shifted_opening_proof=6, eval_point=7, next_eval_point=8, eval=9, u=10)
    e.update(bg=11, g=12, blind=13, pub=[14, 15])

    def final():
        t = result(r)
        i = t.find("prepare_pcs_info_var(")
        if i < 0:
            raise Shape("no opening")
        j = close(t, i + 20)
        a = parts(t[i + 21:j], ",")
        m = Model({**e, "PCS": pcs}, fns=dict(msm=lambda _, x, y: sum(p * q for p, q in zip(x, y)) % Q if len(x) == len(y) else no(["of different numbers"])))
        if len(a) != 6:
            raise Shape("arguments")
        if a[3] != "None()" or m(a[0]) != e["vks"] or m(a[2]) != e["proof"]:
            raise Other("another key or proof is opened")
        d = re.fullmatch(r"new\((.*)\)\.domain", a[4])
        if not d:
            raise Shape("a domain: " + a[4])
        if m(d.group(1)) != 8:
            raise Other("a domain of another size")
        if m(a[1]) != [[14, 15, 14, 15]] * 2:
            raise Other("other public inputs")
        f = re.fullmatch(r"NonNativeFieldInfo\(m=(.*), two_power_m=(.*), modulus_in_f=(.*), modulus_fp_elem=(.*)\)", a[5])
        if not f:
            raise Shape("a field: " + a[5][:200])
        if f.group(2) != f"Some(pow(2,[{f.group(1)}]))" or f.group(4) != "modulus" or not re.fullmatch(r"from_le_bytes_mod_order\(to_bytes_le\(MODULUS\{<E as .*>::ScalarField\}\)\)", f.group(3)):
            raise Other("another modulus or split")
        return m(t.replace(t[i:j + 1], "PCS"))
    same(r, "decision", "the two group elements of the decision", final, [5 + 10 * 6 + 13 * 12, 12 + 7 * 5 + 8 * 10 * 6 - 9 * 12 + 13 * 11])
    split(r, seen)
    other = lambda k, **kw: {**e, "vks": [{**x, **kw} if i == k else x for i, x in enumerate(e["vks"])]}
    e = {**e, **world(3, random.Random(3))}
    refuses(r, "decision-shape", "there is a key", e, {**e, **world(0, random.Random(0))})
    refuses(r, "decision-shape", "as many keys as instances", e, {**e, "proof": world(2, random.Random(2))["proof"]})
    refuses(r, "decision-shape", "keys are of the same domain", e, *[other(k, domain_size=x) for k in range(3) for x in (4, 16)])


def split(r, seen):
    """the number of bits of a part: what a table of ranges is made for, and half of the modulus at least"""
    q, ms = r.q, set()
    for t in seen:
        if t.op == "agg" and t.args[0].endswith("NonNativeFieldInfo") and "m" in t.args[2][0]:
            ms.add(q.norm(t.args[3 + t.args[2][0].index("m")]))
    if len(ms) != 1:
        return r.rep.verdict(None, "decision-split", r.w, "the number of bits of a part")
    m, = ms
    at = {}
    for a in q.iatoms(m):
        k = "range" if iscall(okof(a) or a, "range_bit_len") or "range_bit_len" in str(a)[:200] else "bits" if "MODULUS_BIT_SIZE" in str(a)[:300] else None
        if k is None:
            return r.rep.verdict(None, "decision-split", r.w, f"the number of bits of a part depends on {show(a)}")
        at[a] = k
    for bits in range(60, 400):
        for rb in range(1, 20):
            v = q.ieval(m, {a: bits if k == "bits" else rb for a, k in at.items()})
            if v is None:
                return r.rep.verdict(None, "decision-split", r.w, "the number of bits of a part")
            if v % rb or 2 * v < bits:
                return r.rep.verdict(False, "decision-split", r.w, f"parts of {v} bits for a modulus of {bits} bits and ranges of {rb} bits")
    r.rep.verdict(True, "decision-split", r.w, "two parts hold the modulus, and a part is made of whole ranges")


def keys(R, merge):
    V = "VerifyingKeyVar"
    L = lambda k: [dict([("0", x)]) for x in range(k, k + 3)]
    r = R("new", V, "cs vk")
    if r.ok:
        vk = dict(sigma_comms=L(2), selector_comms=L(20), is_merged=True, domain_size=8, num_inputs=3, k=[5, 6])
        same(r, "key", "a key holds the points and sizes of the key it is made from", lambda: Model(dict(vk=vk))(result(r)),
             {**vk, "sigma_comms": [2, 3, 4], "selector_comms": [20, 21, 22]})
    r = R("to_vec", V, "vk")
    if r.ok:
        P = lambda k: [{"0": x, "1": x + 1} for x in (k, k + 2)]
        same(r, "key-list", "coordinates of all points of a key", lambda: Model(dict(vk=dict(sigma_comms=P(1), selector_comms=P(11))))(result(r)), [1, 2, 3, 4, 11, 12, 13, 14])
    r = merge
    if r.ok:
        k = lambda x: dict(sigma_comms=[x, x + 1], selector_comms=[x + 2, x + 3], is_merged=False, domain_size=8, num_inputs=3, k=[5, 6])
        same(r, "merged", "merged keys add up, with both lists of public inputs", lambda: Model(dict(a=k(100), b=k(200)))(result(r)),
             dict(sigma_comms=[300, 302], selector_comms=[304, 306], is_merged=True, domain_size=8, num_inputs=6, k=[5, 6]))
        e = dict(a=k(100), b=k(200))
        other = lambda x, **kw: {**e, x: {**e[x], **kw}}
        refuses(r, "merged-shape", "merged keys are not merged again", e, other("a", is_merged=True), other("b", is_merged=True))
        refuses(r, "merged-shape", "merged keys have the same domain", e, other("a", domain_size=16), other("a", domain_size=4))
        refuses(r, "merged-shape", "merged keys have as many public inputs", e, other("a", num_inputs=2), other("a", num_inputs=4))
    r = R("aggregate_verify_keys", "PlonkCircuit", "cs a b")
    if r.ok:
        same(r, "merged-all", "keys are merged in pairs", lambda: Model(dict(a=[1, 2, 3], b=[10, 20, 30]), fns=dict(merge=lambda _, x, y: x + y))(result(r)), [11, 22, 33])
        refuses(r, "merged-all-shape", "as many keys of the one type as of the other", dict(a=[1, 2], b=[3, 4]), dict(a=[1], b=[3, 4]), dict(a=[1, 2], b=[3]))


@check("L06", [C], """PLONK verifier in a circuit. Decided: what every part of the verifier circuit returns, and the equations it enforces, are read off the source as polynomials over
 challenges, evaluations, keys and points (modular operations with the right modulus count as the operation they stand for; elements made from a value are unknowns that only equations
 tie to it) and compared, for batches of one to three instances, with the formulas of the verifier.""", floor=13)
def l06(rep, prog):
    def R(name, head, names, cs=None, extra=arith):
        return Rule(rep, prog, C, name, head, OPS | PARTS - {name}, names, cs=cs or (1 if names.startswith("cs") else None), extra=extra, pick="plonk_verifier")
    vanishing(R)
    powers(R)
    inputs(R)
    constant(R)
    commitments(R)
    opening(R)
    keys(R, R("merge", "VerifyingKeyVar", "a cs b", cs=2))
