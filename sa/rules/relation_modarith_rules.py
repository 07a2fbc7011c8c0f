"""jf-relation: arithmetic modulo a given number on elements in two parts, in circuits with lookups."""
import random
import re
from fractions import Fraction
from common import *
from algebra import *
from say import *
from core import check
from relation_emulated_rules import REL, OPS as BASE, Num, Shape, equation, gates, expr2

OPS = (BASE | set("""mod_add_internal mod_add mod_add_constant mod_add_vec mod_mul mod_mul_constant mod_negate div_rem int_div convert_to_var new_unchecked new_from_fp_elem new_from_field_element new
 num_range_blocks range_bit_len range_size next_multiple non_native_power_11_gen non_native_power_5_gen""".split()))
Q = (1 << 521) - 1
SIZES = [(bits, m, r) for bits in (64, 253, 254, 255, 377, 381) for r in (2, 8, 16) for m in range(r, bits // 2 + 1, r)]


def typed(say, t):
    """constants of a field carry its name"""
    if t.op == "kconst" and t.args[0].rsplit("::", 1)[-1] in ("MODULUS", "MODULUS_BIT_SIZE") and len(t.args[1]) == 1:
        return f"{t.args[0].rsplit('::', 1)[-1]}{{{t.args[1][0]}}}"
    return None


def plain(s):
    """big integers of field elements written as the elements"""
    while True:
        i = s.find("into_bigint(")
        if i < 0:
            return s
        j = close(s, i + 11)
        x = s[i + 12:j]
        s = s[:i] + (f"({x})" if len(parts(x, " + ")) > 1 else x) + s[j + 1:]


class Formal:
    """values of texts at random numbers: quotients are unknowns of their own, but by the power of two that the parts are taken of"""

    def __init__(self):
        rnd = random.Random(7)
        self.nums = {}
        self.memo = {}
        self.rnd = rnd
        self.pick = 0

    def atom(self, *key):
        if key not in self.memo:
            self.memo[key] = self.rnd.randrange(1, Q)
        return self.memo[key]

    def inv(self, v):
        return pow(v, -1, Q) if v == self.nums["p.two_power_m"] else self.atom("inv", v)

    def low(self, v, rest):
        return self.atom("low", v, rest)

    def high(self, v, rest):
        return self.atom("high", v, rest)

    def val(self, s):
        s = s.strip()
        if s in self.nums:
            return self.nums[s]
        ps = parts(s, " + ")
        if len(ps) > 1:
            return sum(self.val(p) for p in ps) % Q
        ps = parts(s, "*")
        if len(ps) > 1:
            r = 1
            for p in ps:
                r = r * self.val(p) % Q
            return r
        if s.startswith("-"):
            return -self.val(s[1:]) % Q
        if re.fullmatch(r"\d+", s):
            return int(s)
        if s.startswith("1/(") and close(s, 2) == len(s) - 1:
            return self.inv(self.val(s[3:-1]))
        m = re.fullmatch(r"new\((.*)\)\.p\.([01])", s)
        if m:
            a = parts(m.group(1), ",")
            return (self.low if m.group(2) == "0" else self.high)(self.val(a[0]), ",".join(a[1:]))
        if s.startswith("(") and close(s, 0) == len(s) - 1:
            ps = parts(s[1:-1], " Rem ")
            if len(ps) == 2:
                a, b = map(self.val, ps)
                return (a - self.inv(b) * a * b) % Q
            return self.val(s[1:-1])
        if s.startswith("either(") and close(s, 6) == len(s) - 1:
            return self.val(parts(parts(s[7:-1], " | ")[self.pick], " -> ")[-1])
        raise Shape("a value: " + s[:100])


def variables(s, name):
    """texts with the new variables replaced by their names"""
    while True:
        i = s.find("create_variable(")
        if i < 0:
            return s
        j = close(s, i + 15)
        s = s[:i] + name(plain(s[i + 16:j])) + s[j + 1:]


def number(s, env):
    """the value of a text of sizes; divisions round down"""
    s = s.strip()
    for k in sorted(env, key=len, reverse=True):
        s = s.replace(k, f"({env[k]})")
    s = re.sub(r"1/\((\d+)\)", r"Fraction(1,\1)", s)
    s = s.replace(" Rem ", " % ")
    if not re.fullmatch(r"(Fraction|max|min|[-+*/%(),\d<>=! ])+", s):
        raise Shape("a size: " + s[:100])
    v = eval(s, {"Fraction": Fraction})
    return v if isinstance(v, bool) else v // 1


def admits(ps, env):
    """False when a condition refuses these sizes, None when it may"""
    res = True
    for p in ps:
        if p is None:
            res = None
            continue
        p = p.split(" for ")[0]
        try:
            for op in (" == ", " != ", " <= ", " >= ", " < ", " > "):
                x = parts(p, op)
                if len(x) == 2:
                    a, b = number(x[0], env), number(x[1], env)
                    if not {" == ": a == b, " != ": a != b, " <= ": a <= b, " >= ": a >= b, " < ": a < b, " > ": a > b}[op]:
                        return False
                    break
        except (Shape, SyntaxError, NameError, TypeError, ZeroDivisionError):
            continue
    return res


def params(r, facet, who):
    """elements of other splits than the modulus, and splits that the table does not cover, are refused"""
    ps = r.preds()
    good = {"range_bit_len()": 8, "MODULUS_BIT_SIZE{F}": 377, **{f"{w}.m": 136 for w in who}, **{f"{w}.two_power_m": 2 ** 136 for w in who}}
    ok = admits(ps, good)
    r.rep.verdict(ok is not False, facet, r.w, "elements of one split are taken")
    bad = [({f"{w}.m": k}, f"the split of {w} is {k} bits and not 136") for w in who[:-1] for k in (128, 144)]
    bad += [({f"{w}.two_power_m": 2 ** k}, f"the power of two of {w} is 2^{k} and not 2^136") for w in who[:-1] for k in (128, 144)]
    bad.append(({f"{w}.m": 132 for w in who}, "parts of a size that the table does not cover"))
    for ch, what in bad:
        a = admits(ps, {**good, **ch})
        r.rep.verdict(None if a is None else not a, facet, r.w, f"refused: {what}")


def ranged(c):
    """(variable, bits) of a call, or of each turn of a loop over a written list"""
    m = re.fullmatch(r"\[([^\[\]]*)\]\[i\],(.*) for i in (.*)", c)
    if m:
        vs = parts(m.group(1))
        if m.group(3) not in (f"[{m.group(1)}]", f"0..{len(vs)}"):
            raise Shape("a loop: " + c[:100])
        return [(v, m.group(2)) for v in vs]
    v, b = parts(c, ",")
    return [(v, b)]


def scaled(p):
    return {tuple(sorted(p.items())), tuple(sorted((m, -c) for m, c in p.items()))}


def poly(*terms):
    r = {}
    for c, *vs in terms:
        r = nadd(r, {tuple(sorted(vs)): c})
    return r


def product(R, rep, name, const):
    r = R(name, "PlonkCircuit", "cs x y p")
    if not r.ok:
        return
    w = r.w
    params(r, "product-split", ["x", "y", "p"])
    F = Formal()
    y0, y1 = ("y.p.0", "y.p.1") if const else ("witness(y.vars.0)", "witness(y.vars.1)")
    for a in ("witness(x.vars.0)", "witness(x.vars.1)", y0, y1, "p.p.0", "p.p.1", "p.two_power_m"):
        F.nums[a] = F.rnd.randrange(1, Q)
    for a in "xy":
        F.nums[f"{a}.two_power_m"] = F.nums["p.two_power_m"]
    X0, X1, Y0, Y1, P0, P1, M = (F.nums[a] for a in ("witness(x.vars.0)", "witness(x.vars.1)", y0, y1, "p.p.0", "p.p.1", "p.two_power_m"))
    P = (P0 + M * P1) % Q
    xy = (X0 + M * X1) * (Y0 + M * Y1) % Q
    wv = F.inv(P) * xy % Q
    zv = (xy - wv * P) % Q
    tails = [f"{a}.m,Some({b}.two_power_m)" for a in "pxy" for b in "pxy"]
    for t in tails[1:]:
        F.memo[("low", wv, t)], F.memo[("high", wv, t)] = F.low(wv, tails[0]), F.high(wv, tails[0])
        F.memo[("low", zv, t)], F.memo[("high", zv, t)] = F.low(zv, tails[0]), F.high(zv, tails[0])
    W0, W1, Z0, Z1 = F.low(wv, tails[0]), F.high(wv, tails[0]), F.low(zv, tails[0]), F.high(zv, tails[0])
    im = pow(M, -1, Q)
    C0 = (M + im * (Z0 + P0 * W0 - X0 * Y0)) % Q
    C1 = (2 * M + im * (Z1 + P0 * W1 + P1 * W0 + C0 - X0 * Y1 - X1 * Y0 - M)) % Q
    names = {W0: "w0", W1: "w1", Z0: "z0", Z1: "z1", C0: "c0", C1: "c1"}
    odd = []

    def name(s):
        F.pick = 0
        v = F.val(s)
        F.pick = -1
        if v not in names or F.val(s) != v:
            odd.append(s)
            return f"v{len(odd)}"
        return names[v]
    try:
        vs = [variables(f"create_variable({c})", name) for c in r.calls("create_variable")]
    except Shape as e:
        return rep.verdict(None, "product-witness", w, str(e)[:200])
    if not rep.verdict(set(vs) == set(names.values()), "product-witness", w, f"quotient, remainder and carries of the product are what the variables hold: {sorted(set(names.values()) - set(vs)) or 'all'}"
                       + (f", and something else: {odd[0][:200]}" if odd else "")):
        return
    # equations
    T = "p.two_power_m"
    y0, y1 = ("y.p.0", "y.p.1") if const else ("y.vars.0", "y.vars.1")
    x0, x1 = "x.vars.0", "x.vars.1"
    want = {"low": poly((1, x0, y0), (-1, "p.p.0", "w0"), (1, T, "c0"), (-1, T, T), (-1, "z0")),
            "middle": poly((1, x0, y1), (1, x1, y0), (-1, "p.p.0", "w1"), (-1, "p.p.1", "w0"), (-1, "c0"), (1, T, "c1"), (-2, T, T), (1, T), (-1, "z1")),
            "high": poly((1, x1, y1), (-1, "p.p.1", "w1"), (2, T), (-1, "c1"))}
    try:
        eqs = []
        for kind, t, loop in gates(r):
            if loop:
                raise Shape("a loop of gates")
            t = re.sub(r"\b[xy]\.two_power_m", T, variables(t, name))
            eqs.append(tuple(sorted(equation(kind, t, Num(1)).items())))
        for k, p in want.items():
            rep.verdict(any(e in scaled(p) for e in eqs), "product-equation", w, f"the {k} parts of x*y and z + w*p differ by their carries")
        every = set().union(*map(scaled, want.values()))
        rep.verdict(True if all(e in every for e in eqs) else None, "product-equation", w, "nothing else is required")
    except Shape as e:
        rep.verdict(None, "product-equation", w, str(e)[:200])
    # ranges
    bits = {}
    try:
        for c in r.calls("range_gate_with_lookup"):
            for v, b in ranged(variables(c, name)):
                bits[v] = b
    except (Shape, TypeError, ValueError) as e:
        return rep.verdict(None, "product-range", w, str(e)[:200])
    for v in names.values():
        if v not in bits:
            rep.verdict(False, "product-range", w, f"{v} has no bound")
    if set(bits) != set(names.values()):
        return
    ps = r.preds()
    try:
        for v in sorted(bits):
            ok = True
            for b, m, k in SIZES:
                e = {"range_bit_len()": k, "p.m": m, "x.m": m, "y.m": m}
                n = number(bits[v], e)
                need = m if v[0] in "wz" else m + 1 if v == "c0" else m + 2
                ok = ok and n >= need and (v[0] == "c" or n <= m) and n % k == 0
            rep.verdict(ok, "product-range", w, f"{v} is bounded by its honest values: {bits[v]} bits")
        worst = None
        for b, m, k in SIZES:
            e = {"range_bit_len()": k, "p.m": m, "x.m": m, "y.m": m, "MODULUS_BIT_SIZE{F}": b, **{f"{a}.two_power_m": 2 ** m for a in "xyp"}}
            if admits(ps, e) is False:
                continue
            M_, c0, c1 = 2 ** m, 2 ** number(bits["c0"], e), 2 ** number(bits["c1"], e)
            most = max(M_ * M_ + M_ * c0 - M_ * M_, 2 * M_ * M_ + M_, 2 * M_ * M_ + M_ * c1 - 2 * M_ * M_ + M_, 2 * M_ * M_ + c0 + 2 * M_ * M_ + M_, M_ * M_ + 2 * M_ + c1)
            if most >= 2 ** (b - 1):
                worst = (b, m, k)
        rep.verdict(worst is None, "product-exact", w, "equations of parts in their bounds hold over the integers" + (f": not in a field of {worst[0]} bits with parts of {worst[1]} and a table of {worst[2]}" if worst else ""))
    except Shape as e:
        rep.verdict(None, "product-range", w, str(e)[:200])
    z = re.sub(r"\b[xy]\.(m|two_power_m)\b", r"p.\1", variables(r.say.text(r.cases(True)[0][1]), name)) if r.cases(True) else None
    rep.verdict(z == "Ok(FpElemVar(vars=(z0, z1), m=p.m, two_power_m=p.two_power_m))", "product-result", w, f"the remainder is the result: {str(z)[:200]}")


def total(R, rep):
    """y = x_1 + ... + x_k - p*z"""
    r = R("mod_add_internal", "PlonkCircuit", "cs v p l")
    if not r.ok:
        return
    s = "div_rem(sum(v: witness(v[i])),p)"
    t = s.replace("[i]", "[j]")
    nm_ = lambda x: {s + ".0": "z", s + ".1": "y", t + ".0": "z", t + ".1": "y"}.get(x) or (_ for _ in ()).throw(Shape("a variable: " + x[:80]))
    r.value("sum-result", f"Ok(create_variable({s}.1))", "the remainder of the sum is the result")
    r.does("sum-range", "range_gate_with_lookup", [f"create_variable({s}.0),range_bit_len()", f"create_variable({s}.1),l*range_bit_len()"], "the quotient is below the size of the table, and the remainder has its bound")
    try:
        gs = gates(r)
        if len(gs) != 1:
            raise Shape(f"{len(gs)} gates")
        kind, text, loop = gs[0]
        text = variables(text, nm_)
        bad = None
        for k in range(1, 12):
            for up in {k if k % 3 == 0 else k - k % 3 + 3, (k // 3 + 1) * 3 if k > 3 else 3}:
                got = tuple(sorted(padded(kind, text, k, up).items()))
                if got not in scaled(poly((-1, "p", "z"), (-1, "y"), *((1, f"v[{j}]") for j in range(k)))):
                    bad = bad or (k, str(got)[:200])
        rep.verdict(bad is None, "sum-equation", r.w, "every summand counts once, and the modulus as often as the quotient says" + (f": not with {bad[0]} summands: {bad[1]}" if bad else ""))
    except Shape as e:
        rep.verdict(None, "sum-equation", r.w, str(e)[:200])


def padded(kind, text, k, up):
    """the polynomial of the gate of a sum of k variables in a list of padded length"""
    text = text.replace("next_multiple(len(v),3)", str(up)).replace("len(v)", str(k))

    def entries(s):
        out = []
        for x in parts(s[1:-1]):
            m = re.fullmatch(r"pad\((.*) to (.*)\)", x)
            if m:
                n = number(m.group(2), {})
                if n < len(out):
                    raise Shape("a list cut short")
                out += [m.group(1)] * int(n - len(out))
            elif x == "*v":
                out += [f"v[{j}]" for j in range(k)]
            else:
                out.append(x)
        return out

    def look(s, env):
        """lists at places replaced by what stands there"""
        i = 0
        while i < len(s):
            if s[i] == "[" and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "]")):
                j = close(s, i)
                if j + 1 < len(s) and s[j + 1] == "[":
                    e = close(s, j + 1)
                    n = int(number(re.sub(r"\bi\b", lambda m: str(env["i"]), s[j + 2:e]) if "i" in env else s[j + 2:e], {}))
                    l = entries(s[i:j + 1])
                    if not 0 <= n < len(l):
                        raise Shape("a place outside of the list")
                    s = s[:i] + l[n] + s[e + 1:]
                    continue
            i += 1
        return s

    def unfold(s):
        i = s.find("fold(")
        if i < 0:
            return look(s, {})
        j = close(s, i + 4)
        d, _, b = s[i + 5:j].partition(": ")
        a, e = d.split("..")
        init, body = parts(b, "; ")
        acc = look(init, {})
        for n in range(int(number(e, {}) - number(a, {}))):
            acc = re.sub(r"\bp0\b", lambda m: acc, look(body, {"i": n}))
        return look(s[:i] + acc + s[j + 1:], {})
    return equation(kind, unfold(text), Num(1))


def sums(R, rep):
    p = "p.p.0 + p.p.1*p.two_power_m"
    bounded = {}
    for name, names, who, vs in (("mod_add", "cs x y p", ["x", "y", "p"], ["[convert_to_var(x), convert_to_var(y)]", "[convert_to_var(y), convert_to_var(x)]"]),
                                 ("mod_add_vec", "cs x p", ["x[i]", "p"], ["[{convert_to_var(x[i]) for i in x}]"])):
        r = R(name, "PlonkCircuit", names)
        if not r.ok:
            continue
        params(r, "sum-split", who)
        ls = ("num_range_blocks()", "2*1/(range_bit_len())*p.m")
        r.value("sum", [f"new_unchecked(mod_add_internal({v},{p},{l}),{a}.m,Some({b}.two_power_m))" for v in vs for l in ls for a in "xyp" for b in "xyp"], "the sum of the elements modulo the number given")
        exact(r, rep, "num_range_blocks()*range_bit_len()" if any("num_range_blocks()" in str(c) for c in r.calls("mod_add_internal")) else "2*p.m")
    r = R("mod_add_constant", "PlonkCircuit", "cs x y p")
    if r.ok:
        params(r, "sum-split", ["x", "y", "p"])
        s = f"div_rem(witness(convert_to_var(x)) + y.p.0 + y.p.1*y.two_power_m,{p})"
        nm_ = lambda x: {s + ".0": "z", s + ".1": "y"}.get(x) or (_ for _ in ()).throw(Shape("a variable: " + x[:80]))
        r.value("sum", [f"new_unchecked(create_variable({s}.1),{a}.m,Some({b}.two_power_m))" for a in "xyp" for b in "xyp"], "the remainder of the sum, in parts")
        try:
            eqs = [tuple(sorted(equation(k, variables(t, nm_), Num(1)).items())) for k, t, l in gates(r)]
            T = "p.two_power_m"
            want = poly((1, "convert_to_var(x)"), (1, "y.p.0"), (1, "y.p.1", "y.two_power_m"), (-1, "y"), (-1, "p.p.0", "z"), (-1, "p.p.1", T, "z"))
            rep.verdict(len(eqs) == 1 and eqs[0] in scaled(want), "sum-equation", r.w, f"x + y = remainder + p*quotient: {str(eqs)[:300]}")
            b = [parts(variables(c, nm_), ",") for c in r.calls("range_gate_with_lookup")]
            rep.verdict(["z", "range_bit_len()"] in b, "sum-range", r.w, "the quotient is below the size of the table")
            b = [x[1] for x in b if x[0] == "y"]
            if not b:
                rep.verdict(False, "sum-range", r.w, "the remainder has no bound")
            else:
                rep.verdict(True, "sum-range", r.w, f"the remainder has a bound: {b[0]}")
                exact(r, rep, b[0])
        except Shape as e:
            rep.verdict(None, "sum-equation", r.w, str(e)[:200])
    r = R("mod_negate", "PlonkCircuit", "cs x p")
    if r.ok:
        ps = r.preds()
        env = {"range_bit_len()": 8, "x.m": 136, "x.two_power_m": 2 ** 136, "witness(x.vars.0)": 5, "witness(x.vars.1)": 7}
        at = lambda **k: admits([plain(q) if q else q for q in ps if q is None or " is Ok" not in q], {**env, "(p)": "(1)", **k})
        rep.verdict(None if (a := at(**{"x.m": 132})) is None else not a, "negation-split", r.w, "refused: parts of a size that the table does not cover")
        big = [plain(q) if q else q for q in ps]
        want = ["witness(x.vars.0) + witness(x.vars.1)*x.two_power_m < p"]
        rep.verdict(True if any(q in want for q in big) else None if None in big else False, "negation-range", r.w, "elements that are not below the modulus are refused")
        v = "p + -witness(x.vars.0) + -witness(x.vars.1)*x.two_power_m"
        v2 = "-witness(x.vars.0) + -witness(x.vars.1)*x.two_power_m + p"
        nm_ = lambda x: "n" if x in (v, v2) else (_ for _ in ()).throw(Shape("a variable: " + x[:80]))
        try:
            eqs = [tuple(sorted(equation(k, variables(t, nm_), Num(1)).items())) for k, t, l in gates(r)]
            eqs = [tuple(sorted((tuple(y for y in m if y != "one()"), c) for m, c in e)) for e in eqs]
            want = poly((1, "convert_to_var(x)"), (1, "n"), (-1, "p"))
            rep.verdict(len(eqs) == 1 and eqs[0] in scaled(want), "negation-equation", r.w, f"element and negation add up to the modulus: {str(eqs)[:300]}")
            z = {variables(r.say.text(c[1]), nm_) for c in r.cases(True)}
            rep.verdict(z == {"new_unchecked(n,x.m,Some(x.two_power_m))"}, "negation", r.w, f"the negation in parts: {sorted(z)[:1]}")
        except Shape as e:
            rep.verdict(None, "negation", r.w, str(e)[:200])


def exact(r, rep, bits):
    """remainders below a bound that excludes wrapping around"""
    worst = None
    try:
        for b, m, k in SIZES:
            e = {"range_bit_len()": k, "num_range_blocks()": -(-b // k), "p.m": m, "x.m": m, "y.m": m}
            if 2 * m + k + 1 < b and 2 ** number(bits, e) + 2 ** (2 * m + k) >= 2 ** (b - 1):
                worst = (b, m, k)
        rep.verdict(worst is None, "sum-exact", r.w, "the equation of a sum holds over the integers" + (f": not in a field of {worst[0]} bits with parts of {worst[1]} and a table of {worst[2]}" if worst else ""))
    except Shape as e:
        rep.verdict(None, "sum-exact", r.w, str(e)[:200])


def simple(R, rep, prog):
    two = "pow(2,[m])"
    r = R("div_rem", None, "a b", pick="=gadgets::ultraplonk::mod_arith::div_rem")
    if r.ok:
        r.value("division", ["(int_div(a,b), a + -b*int_div(a,b))"], "quotient and what is left")
    r = R("int_div", None, "a b", pick="=gadgets::ultraplonk::mod_arith::int_div")
    if r.ok:
        r.value("division", ["1/(into_bigint(b))*into_bigint(a)"], "the quotient of the integers")
    r = R("new", "FpElem", "a m t")
    if r.ok:
        out = lambda t: f"Ok(FpElem(p=(div_rem(a,{t}).1, div_rem(a,{t}).0), m=m, two_power_m={t}))"
        r.casewise("split", {out("t"): ["t is Some"], out(two): ["t is None"]}, "rest and quotient by the power of two")
        ps = r.preds()
        for b, m, ok in ((254, 127, True), (254, 128, False), (255, 127, True), (255, 128, False)):
            a = admits(ps, {"MODULUS_BIT_SIZE{F}": b, "m": m})
            rep.verdict(None if a is None else a == ok, "split", r.w, f"parts of {m} bits in a field of {b}: {'taken' if ok else 'refused'}")
    r = R("field_elem", "FpElem", "e")
    if r.ok:
        r.value("split", ["e.p.0 + e.p.1*e.two_power_m"], "the parts put together")
    r = R("new_unchecked", "FpElemVar", "cs v m t")
    if r.ok:
        n = "new(witness(v),m,t)"
        cv = [f"create_variable({n}.p.{i})" for i in (0, 1)]
        r.value("split", f"Ok(FpElemVar(vars=({cv[0]}, {cv[1]}), m=m, two_power_m={n}.two_power_m))", "variables for the parts")
        try:
            nm_ = lambda x: {f"{n}.p.0": "a", f"{n}.p.1": "b"}.get(x) or (_ for _ in ()).throw(Shape("a variable: " + x[:80]))
            eqs = [tuple(sorted(equation(k, variables(t, nm_), Num(1)).items())) for k, t, l in gates(r)]
            rep.verdict(len(eqs) == 1 and eqs[0] in scaled(poly((1, "a"), (1, "b", f"{n}.two_power_m"), (-1, "v"))), "split-equation", r.w, f"the parts add up to the variable: {str(eqs)[:200]}")
        except Shape as e:
            rep.verdict(None, "split-equation", r.w, str(e)[:200])
    r = R("convert_to_var", "FpElemVar", "e cs")
    if r.ok:
        try:
            t = {r.say.text(c[1]) for c in r.cases(True)}
            t = {re.sub(r"\(cs\)", "()", x).replace("lc(cs,", "lc(").replace("add(cs,", "add(") for x in t}
            ok = [Num(1).val(x) == poly((1, "e.vars.0"), (1, "e.two_power_m", "e.vars.1")) for x in t]
            rep.verdict(len(ok) == 1 and ok[0], "split-equation", r.w, f"the parts put together: {sorted(t)[:1]}")
        except Shape as e:
            rep.verdict(None, "split-equation", r.w, str(e)[:200])
    r = R("new_from_field_element", "FpElemVar", "cs f m t")
    if r.ok:
        r.value("split", ["new_from_fp_elem(new(f,m,t),m,t)", "new_from_fp_elem(new(f,m,t),m,Some(new(f,m,t).two_power_m))"], "the parts of the element")
    r = R("new_from_fp_elem", "FpElemVar", "cs f m t")
    if r.ok:
        out = lambda t: f"Ok(FpElemVar(vars=(create_variable(f.p.0), create_variable(f.p.1)), m=m, two_power_m={t}))"
        r.casewise("split", {out("t"): ["t is Some"], out(two): ["t is None"]}, "variables for the parts")
        r.does("split-range", "range_gate_with_lookup", ["create_variable(f.p.0),m", "create_variable(f.p.1),m"], "both parts are bounded")
    for name, v in (("zero", "zero()"), ("one", "one()")):
        r = R(name, "FpElemVar", "cs m t")
        if r.ok:
            out = lambda t: f"FpElemVar(vars=({v}, zero()), m=m, two_power_m={t})"
            r.casewise("constants", {out("t"): ["t is Some"], out(two): ["t is None"]}, "the parts of zero and one")
    r = R("witness", "FpElemVar", "e cs")
    if r.ok:
        r.value("split", "Ok(e.two_power_m*witness(cs,e.vars.1) + witness(cs,e.vars.0))", "the value of the parts put together")
    r = R("witness_fp_elem", "FpElemVar", "e cs")
    if r.ok:
        r.value("split", "Ok(FpElem(p=(witness(cs,e.vars.0), witness(cs,e.vars.1)), m=e.m, two_power_m=e.two_power_m))", "the values of the parts")
    r = R("enforce_equal", "FpElemVar", "e cs o", pick="mod_arith")
    if r.ok:
        cs = [re.sub(r"^(cs|enforce_equal'0\(.*\)),(?=[eo]\.vars)", "", c) if isinstance(c, str) else c for c in r.calls("enforce_equal")]
        for i in "01":
            rep.verdict(any(c in (f"e.vars.{i},o.vars.{i}", f"o.vars.{i},e.vars.{i}") for c in cs), "equality", r.w, f"part {i} equals part {i}: {[str(c)[:60] for c in cs]}")
        ps = r.preds()
        for ch in ({"o.m": 8}, {"o.m": 24}, {"o.two_power_m": 3}, {"o.two_power_m": 27}):
            a = admits(ps, {"e.m": 16, "o.m": 16, "e.two_power_m": 9, "o.two_power_m": 9, **ch})
            rep.verdict(None if a is None else not a, "equality", r.w, f"refused: other {list(ch)[0][2:]}")


def power(t, mod, x):
    """the exponent that a tree of products stands for"""
    if t == x:
        return 1
    if isinstance(t, str):
        raise Shape("a factor: " + t[:80])
    f, a = t
    if f != "mod_mul" or len(a) != 3:
        raise Shape("a factor: " + f)
    if a[2] != mod:
        raise Shape("!modulus " + str(a[2])[:200])
    return power(a[0], mod, x) + power(a[1], mod, x)


def non_native(R, rep):
    mod = lambda x: f"new(from_le_bytes_mod_order(to_bytes_le(MODULUS{{T}})),{x}.m,Some({x}.two_power_m))"
    smaller = lambda r: rep.verdict(v if (v := _smaller(r)) is None else v, "field-size", r.w, "fields that are not smaller are refused")

    def _smaller(r):
        ps = r.preds()
        res = admits(ps, {"MODULUS_BIT_SIZE{T}": 377, "MODULUS_BIT_SIZE{F}": 377}), admits(ps, {"MODULUS_BIT_SIZE{T}": 254, "MODULUS_BIT_SIZE{F}": 377}), admits(ps, {"MODULUS_BIT_SIZE{T}": 378, "MODULUS_BIT_SIZE{F}": 377})
        if None in res and False not in (res[0], res[2]):
            return None
        return res[0] is False and res[2] is False and res[1] is not False
    for n, k in (("non_native_power_11_gen", 11), ("non_native_power_5_gen", 5)):
        r = R(n, "PlonkCircuit", "cs x", extra=typed)
        if not r.ok:
            continue
        try:
            for c in r.cases(True):
                e = expr2(r.say.text(c[1]))
                got = power(e, expr2(mod("x")), "x")
                rep.verdict(got == k, "power", r.w, f"the element to the power {k}: {got}")
        except Shape as e:
            rep.verdict(False if str(e).startswith("!") else None, "power", r.w, str(e)[:200])
        if k == 5:
            smaller(r)
    r = R("non_native_power_11_gate", "PlonkCircuit", "cs x y", extra=typed)
    if r.ok:
        g = "non_native_power_11_gen(x)"
        r.does("power-equal", "enforce_equal", [(f"y.vars.{i},{g}.vars.{i}", f"{g}.vars.{i},y.vars.{i}") for i in "01"], "the parts are those of the power")
        smaller(r)
    r = R("non_native_linear_gen", "PlonkCircuit", "cs x y c", extra=typed)
    if r.ok:
        p = mod("c")
        r.value("linear", [f"mod_add_constant(mod_add_vec([{{mod_mul_constant(x[i],y[i],{p}) for i in {d}}}],{p}),c,{p})" for d in ("x&y", "y&x", "x", "y")], "the products of matching entries and the constant, added up")
        ps = r.preds()
        rep.verdict(True if "-len(x) + len(y) == 0" in ps else None if None in ps else False, "linear-length", r.w, "lists of different lengths are refused")
        for v in "xy":
            for k in (8, 24):
                a = admits(ps, {"MODULUS_BIT_SIZE{T}": 254, "MODULUS_BIT_SIZE{F}": 377, f"{v}[i].m": k, f"{'yx'[v == 'y']}[i].m": 16, "c.m": 16, "len(x)": 1, "len(y)": 1})
                rep.verdict(None if a is None else not a, "linear-split", r.w, f"refused: elements of {v} split at {k} and not at 16")
        smaller(r)


@check("C09", [REL], """Arithmetic modulo a given number on elements in two parts. Decided: elements are split by quotient and rest and put together by the same power of two, with bounds on both parts when created
from values; the variables of a product hold quotient, remainder and the two carries of the schoolbook product (as formal identities), its three gates are the identities of the low, middle and high parts, every
variable has a bound that admits its honest values, and in every field, split and table that is not refused the equations hold over the integers; the gates of sums, at every number of summands up to eleven, add
each summand once and subtract the modulus times the bounded quotient; negation adds up to the modulus; elements of other splits are refused; powers have their exponents, and linear forms combine matching entries
in the right field. From the bounds on remainders: whether sums hold over the integers.""", floor=60)
def modarith(rep, prog):
    def R(name, head, names, extra=typed, **k):
        return Rule(rep, prog, REL, name, head, OPS, names, cs=1 if names.startswith("cs") else None, extra=extra, **k)
    simple(R, rep, prog)
    total(R, rep)
    sums(R, rep)
    product(R, rep, "mod_mul", False)
    product(R, rep, "mod_mul_constant", True)
    non_native(R, rep)
