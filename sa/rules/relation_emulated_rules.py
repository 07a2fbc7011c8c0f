"""jf-relation: arithmetic of a foreign field in limbs, and curves over it."""
import itertools
import random
import re
from common import *
from algebra import *
from say import *
from core import check
from relation_ecc_rules import REL, OPS as BASE

OPS = (BASE | set("""quad_poly_gate logic_and_all create_public_boolean_variable emulated_witness emulated_mul emulated_mul_gate emulated_mul_constant emulated_mul_constant_gate emulated_add
 emulated_add_gate emulated_sub emulated_add_constant emulated_add_constant_gate emulated_sub_constant create_emulated_variable create_emulated_variable_unchecked create_constant_emulated_variable
 create_public_emulated_variable conditional_select_emulated enforce_emulated_var_equal is_emulated_var_equal is_emulated_var_zero mod_to_native_field biguint_to_limbs to_emulated_field
 create_emulated_sw_point_variable create_emulated_te_point_variable emulated_sw_ecc_add_gate emulated_te_ecc_add_gate is_emulated_sw_point_equal is_emulated_te_point_equal""".split()))
# moduli of the fields the configurations are about
P254 = 21888242871839275222246405745257275088548364400416034343698204186575808495617
Q254 = 21888242871839275222246405745257275088696311157297823662689037894645226208583
Q377 = 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177
FIELD = {"ark_bls12_377::FqConfig": Q377, "ark_bn254::FqConfig": Q254, "ark_bn254::FrConfig": P254}


class Shape(Exception):
    pass


class Num:
    """polynomials that texts stand for, at a number of limbs n and with the loop numbers in env; linear gates and lists of (variable, coefficient) pairs are summed up"""

    def __init__(self, n, env=None, name=()):
        self.n, self.env, self.name = n, dict(env or {}), name

    def int(self, s):
        s = s.replace("NUM_LIMBS", str(self.n))
        s = re.sub(r"\b[ijkn]\b", lambda m: str(self.env[m.group()]) if m.group() in self.env else m.group(), s)
        if not re.fullmatch(r"[-+*()\d ]+", s):
            raise Shape("a number: " + s[:80])
        return eval(s)

    def extent(self, d):
        """the numbers a loop goes through, counted from its start"""
        m = re.fullmatch(r"(.+?)\.\.(.+?)(?::(\d+))?", d)
        if not m:
            raise Shape("an extent: " + d[:80])
        a, b = self.int(m.group(1)), self.int(m.group(2))
        return [x - a for x in range(a, b, int(m.group(3) or 1))]

    def at(self, **k):
        return Num(self.n, {**self.env, **k}, self.name)

    def lists(self, s):
        """texts of the arguments that are lists"""
        s = s.strip()
        if not (s.startswith("[") and close(s, 0) == len(s) - 1):
            raise Shape("a list: " + s[:80])
        out = []
        for x in parts(s[1:-1]) if s != "[]" else []:
            m = re.fullmatch(r"\{(.*) x (\d+)\}", x)
            out += [m.group(1)] * int(m.group(2)) if m else [x]
        return out

    def popped(self, x):
        return f"P({x})"

    def lin(self, ws, cs):
        r = {}
        ws, cs = self.lists(ws), self.lists(cs)
        if len(ws) != len(cs):
            raise Shape("coefficients and variables differ in number")
        for w, c in zip(ws, cs):
            r = nadd(r, self.mul(self.val(w), self.val(c)))
        return r

    def mul(self, a, b):
        r = {}
        for m, c in nmul(a, b).items():
            m = list(m)
            for x in [x for x in m if x.startswith("pop(") and x.endswith(".0")]:
                y = x[:-1] + "1"
                if x in m and y in m:
                    m.remove(x)
                    m.remove(y)
                    m.append(self.popped(x[4:-3]))
            k = tuple(sorted(m))
            r[k] = r.get(k, 0) + c
        return {m: c for m, c in r.items() if c}

    def quad(self, ws, lc, qm, k):
        w = self.lists(ws)
        q = self.lists(qm)
        r = self.lin("[" + ", ".join(w[:4]) + "]", lc)
        for c, (a, b) in zip(q, ((0, 1), (2, 3))):
            r = nadd(r, self.mul(self.val(c), self.mul(self.val(w[a]), self.val(w[b]))))
        return nadd(r, self.val(k))

    def val(self, s):
        s = s.strip()
        for k, v in self.name:
            if s == k:
                return {(v,): 1}
        ps = parts(s, " + ")
        if len(ps) > 1:
            r = {}
            for p in ps:
                r = nadd(r, self.val(p))
            return r
        ps = parts(s, "*")
        if len(ps) > 1:
            r = {(): 1}
            for p in ps:
                r = self.mul(r, self.val(p))
            return r
        if s.startswith("-"):
            return {m: -c for m, c in self.val(s[1:]).items()}
        if re.fullmatch(r"\d+", s):
            return {(): int(s)} if int(s) else {}
        if s == "zero()":
            return {}
        m = re.match(r"(\w+)\(", s)
        if m and close(s, m.end() - 1) == len(s) - 1:
            f, a = m.group(1), s[m.end():-1]
            if f == "lc":
                return self.lin(*parts(a, ","))
            if f == "mul_add":
                ws, cs = parts(a, ",")
                w, c = self.lists(ws), self.lists(cs)
                return nadd(self.mul(self.val(c[0]), self.mul(self.val(w[0]), self.val(w[1]))), self.mul(self.val(c[1]), self.mul(self.val(w[2]), self.val(w[3]))))
            if f == "gen_quad_poly":
                return self.quad(*parts(a, ","))
            if f in ("sum", "run", "fold"):
                d, _, b = a.partition(": ")
                if f == "run":
                    r = {(): 1}
                    for _ in range(self.env["#"]):
                        r = self.mul(r, self.val(b))
                    return r
                if f == "sum":
                    r = {}
                    l = next((x for x in "kji" if re.search(r"\b%s\b" % x, b)), "j")
                    for t in self.extent(d):
                        r = nadd(r, self.at(**{l: t}).val(b))
                    return r
                init, b = parts(b, "; ")
                r = self.val(init)
                for n, t in enumerate(self.extent(d)):
                    e = self.at(i=t, **{"#": n})
                    r = self.subst(e.val(b), "p0", r)
                return r
            if f == "either":
                return self.either(a)
        s = re.sub(r"(?<=\w)\[([^\[\]]*)\]", lambda x: f"[{self.int(x.group(1))}]", s) if not s.startswith("pop(") and "(2,[B])" not in s else s
        return {(s,): 1}

    def subst(self, p, v, q):
        r = {}
        for m, c in p.items():
            x = {tuple(y for y in m if y != v): c}
            for _ in range(m.count(v)):
                x = nmul(x, q)
            r = nadd(r, x)
        return r

    def either(self, a):
        """what stands at a place of a list of n entries, or another value when it is too short"""
        for alt in parts(a, " | "):
            c, _, v = alt.partition(" -> ")
            g = re.fullmatch(r"get\(\w\.0,([^()]*)\) is (None|Some)", c)
            l = re.fullmatch(r"len\(\w\.0\) (!=|==) 0", c)
            if g and (self.int(g.group(1)) < self.n) == (g.group(2) == "Some") or l and (self.n > 0) == (l.group(1) == "!="):
                return self.val(v)
            if not g and not l:
                raise Shape("a choice: " + c[:100])
        raise Shape("no choice applies")

    # ---- lists of (variable, coefficient)
    def pair(self, s):
        s = s.strip()
        if not (s.startswith("(") and close(s, 0) == len(s) - 1):
            raise Shape("a pair: " + s[:80])
        v, c = parts(s[1:-1])
        return self.mul(self.val(v), self.val(c))

    def total(self, s):
        """the sum of the entries of a list, each variable times its coefficient"""
        s = s.strip()
        if re.fullmatch(r"w\d", s):
            return {(f"T({s})",): 1}
        if s.startswith("pop'0(") and close(s, 5) == len(s) - 1:
            x = s[6:-1]
            return nadd(self.total(x), {(self.popped(x),): -1})
        if s.startswith("while(") and close(s, 5) == len(s) - 1:
            w, row, cond = parts(s[6:-1], "; ")
            m = re.match(r"w0: ", row)
            init, step = parts(row[4:], " -> ")
            if w != "w0" or not m or self.total(step) != {("T(w0)",): 1}:
                raise Shape("the sum of the pending terms changes: " + step[:200])
            self.limit = cond
            return self.total(init)
        if not s.startswith("["):
            raise Shape("a list: " + s[:80])
        j = close(s, 0)
        r = {}
        for it in parts(s[1:j]):
            if it.startswith("*"):
                r = nadd(r, self.total(it[1:]))
            elif it.startswith("{"):
                m = re.fullmatch(r"(.*) for (\w) in ([^{}]*)", it[1:-1])
                if not m:
                    raise Shape("an entry: " + it[:80])
                for t in self.extent(m.group(3)):
                    r = nadd(r, self.at(**{m.group(2): t}).pair(m.group(1)))
            else:
                r = nadd(r, self.pair(it))
        rest = s[j + 1:]
        while rest:
            k = close(rest, 0)
            r = self.edits(rest[1:k], r)
            rest = rest[k + 1:]
        return r

    def holds(self, c):
        m = re.fullmatch(r"\((.*) Rem (\d+)\) (==|!=) 0", c)
        if m:
            return (self.int(m.group(1)) % int(m.group(2)) == 0) == (m.group(3) == "==")
        if re.fullmatch(r"pop\(.*\) is Some", c):
            return True
        raise Shape("a condition: " + c[:80])

    def edits(self, s, r):
        n = 0
        for alt in parts(s, " | "):
            if not alt.startswith("if "):
                return self.ops(s, r)
            b = next(i for i in range(len(alt)) if alt[i] == "{" and close(alt, i) == len(alt) - 1)
            if all(self.holds(c) for c in parts(alt[3:b].strip(), " & ")):
                r0, n = r, n + 1
                out = self.ops(alt[b + 1:-1], r0)
        if n != 1:
            raise Shape("several choices apply")
        return out

    def ops(self, s, r):
        k, before = 0, None
        for o in parts(s, "; "):
            m = re.match(r"for (\w) in (.*?) \{", o)
            if o.startswith("push "):
                p = self.pair(o[5:])
                for x in {x for q in p for x in q if x.startswith("P(")}:
                    if before is None:
                        continue
                    inner = x[2:-1]
                    depth = 0
                    while inner.startswith("pop'0("):
                        inner, depth = inner[6:-1], depth + 1
                    if self.total(inner) != before:
                        raise Shape("an entry taken from another list")
                    p = {tuple(f"#{depth + 1}" if y == x else y for y in q): c for q, c in p.items()}
                    p = {tuple(sorted(q)): c for q, c in p.items()}
                r = nadd(r, p)
            elif o == "pop()":
                before = r if before is None else before
                k += 1
                r = nadd(r, {(f"#{k}",): -1})
            elif m and o.endswith("}"):
                for t in self.extent(m.group(2)):
                    r = self.at(**{m.group(1): t}).ops(o[m.end():-1], r)
            else:
                raise Shape("an edit: " + o[:80])
        return r


def pops(s):
    """entries taken from a list, or (zero, 0) when there are none left, read as entries"""
    while True:
        i = s.find("either(pop(")
        if i < 0:
            return s
        j = close(s, i + 6)
        alts = dict((parts(x, " -> ") + [""])[:2] for x in parts(s[i + 7:j], " | "))
        x = s[i + 11:close(s, i + 10)]
        if alts != {f"pop({x}) is None": "(zero(), 0)", f"pop({x}) is Some": f"pop({x})"}:
            raise Shape("a choice: " + s[i:i + 100])
        s = s[:i] + f"pop({x})" + s[j + 1:]


def equation(kind, text, num):
    """the polynomial a gate makes zero"""
    a = parts(text, ",")
    if kind == "lc_gate":
        w = num.lists(a[0])
        r = num.lin("[" + ", ".join(w[:4]) + "]", a[1])
        return nadd(r, {m: -c for m, c in num.val(w[4]).items()})
    w = num.lists(a[0])
    r = num.quad("[" + ", ".join(w[:4]) + "]", a[1], a[2], a[4])
    return nadd(r, {m: -c for m, c in num.mul(num.val(a[3]), num.val(w[4])).items()})


def gates(r):
    """(kind, arguments, loop) of the gates of a function"""
    out = []
    for kind in ("lc_gate", "quad_poly_gate"):
        for c in r.calls(kind):
            if not isinstance(c, str):
                raise Shape(str(c))
            t, _, tail = c.partition(" for i in ") if re.search(r"\](,\S+)* for i in [^\]]*$", c) else (c, "", "")
            if not tail and " for i in " in c:
                k = c.rfind(" for i in ")
                if close("(" + c[:k] + ")", 0) == k + 1:
                    t, tail = c[:k], c[k + 10:]
            out.append((kind, t, tail))
    return out


def limbs(x):
    return f"biguint_to_limbs({x},B,NUM_LIMBS)"


def product(R, rep, prog, name, bw, consts):
    """the gates of a product: limb by limb modulo the power of two, and modulo the native field"""
    r = R(name, "PlonkCircuit", "cs a b c", extra=fresh)
    if not r.ok:
        return
    w = r.w
    wa = "emulated_witness(a)"
    ab = ptext(nmul({(bw,): 1}, {(wa,): 1}))
    K = f"create_emulated_variable({ptext({tuple(sorted(('1/(MODULUS)', bw, wa))): 1})})"
    neg = limbs("-MODULUS + pow(2,T)")
    short = lambda t: t.replace(K, "K").replace(neg, "N").replace(limbs(bw), "b.0" if bw == "b" else limbs(bw)) if isinstance(t, str) else t
    bl = "b.0"
    pw = "pow(2,[B])"
    want = lambda n: ({tuple(sorted((f"K.0[{j}]", f"N[{n - j}]"))): 1 for j in range(n + 1)} | {tuple(sorted((f"a.0[{j}]", f"{bl}[{n - j}]"))): 1 for j in range(n + 1)}
                      | {("out", pw): -1} | {(f"c.0[{n}]",): -1} | ({("prev",): 1} if n else {}))
    bmod = "b" if bw == "b" else "mod_to_native_field(b)"
    native = {tuple(sorted(("mod_to_native_field(a)", bmod))): 1, tuple(sorted(("MODULUS", "mod_to_native_field(K)"))): -1, ("mod_to_native_field(c)",): -1}
    try:
        gs = [(k, pops(short(t)), d) for k, t, d in gates(r)]
        names = [("first", "out")]
        top = [equation(k, t, Num(5, name=names)) for k, t, d in gs if not d]
        same = lambda a, b: a == b or a == {m: -c for m, c in b.items()}
        rep.verdict(any(same(x, want(0)) for x in top), "product-lowest", w, "the lowest limbs agree: a0*b0 + k0*(2^T - modulus)0 = c0 + carry*2^B")
        rep.verdict(any(same(x, native) for x in top), "product-native", w, "the product less a multiple of the modulus is the result modulo the native field")
        rep.verdict(True if len(top) == 2 else None, "product-gates", w, f"{len(top)} equations outside loops")
        inner = [(k, t, re.sub(r" if len\(while\(.* <= 4$", "", d)) for k, t, d in gs if d]
        rep.verdict(True if len(inner) == 1 and inner[0][2] == "1..NUM_LIMBS" else False if not inner else None, "product-limbs", w, f"an equation for every further limb: {[d[:60] for _, _, d in inner]}")
        for k, t, d in inner:
            bad = None
            for n in range(1, 7):
                prev = re.sub(r"runfold\(1\.\.NUM_LIMBS: first; next\)", "prev", t)
                num = Num(7, {"i": n - 1}, [("prev", "prev"), ("next", "out")])
                ws = num.lists(parts(prev, ",")[0])
                eq = equation(k, prev, num)
                ts = {m[0] for m in eq if len(m) == 1 and m[0].startswith("P(")}
                base = min(ts, key=len)[2:-1] if ts else None
                if base is not None:
                    every = {num.popped("pop'0(" * j + base + ")" * j) for j in range(len(ws) - 1)}
                    if ts != every or any(eq[(x,)] != 1 for x in ts):
                        bad = "pending terms are left out"
                        break
                    eq = {m: c for m, c in eq.items() if m[0] not in ts or len(m) > 1}
                    eq = nadd(eq, num.total(base))
                    if num.limit != f"{len(ws) - 1} < len(w0)":
                        bad = "more terms can be left than are summed up: " + num.limit
                        break
                if not same(eq, want(n)):
                    bad = f"limb {n}: {ptext(nadd(eq, {m: -c for m, c in want(n).items()}))[:300]} too much"
                    break
            rep.verdict(bad is None, "product-limb", w, "every limb: sum of a_j*b_(n-j) + k_j*(2^T - modulus)_(n-j) and the carry is c_n + next carry*2^B" + (f": {bad}" if bad else ""))
        values(r, rep, short, w, bl if bw == "b" else None, wa, bw, ab, K)
        ranges(r, rep, w, consts)
        rs = r.calls("create_emulated_variable")
        rep.verdict(True if rs == [K[len("create_emulated_variable("):-1]] else False, "product-quotient", w, f"the quotient is a range checked element with the value of the product over the modulus: {rs}")
    except Shape as ex:
        rep.verdict(None if "changes" not in str(ex) else False, "product-limb", w, str(ex))
    need = ["check_vars_bound(a.0) is Ok", "check_vars_bound(c.0) is Ok"] + ([] if bw == "b" else ["check_vars_bound(b.0) is Ok"])
    for x in need:
        r.needs("product-bound", x, "variables of another circuit are taken")


def fresh(say, t):
    """the variables for carries: the first one, and those of the loop"""
    if t.op == "call" and nm(t) == "create_variable" and len(t.args) == 4:
        s = say.text(t.args[3])
        return "next" if "runfold(" in s or re.search(r"\bp\d\b", s) else "first"
    return None


def values(r, rep, short, w, bl, wa, bw, ab, K):
    vs = [x for x in r.calls("create_variable")]
    if any(not isinstance(x, str) for x in vs) or len(vs) != 2:
        return rep.verdict(None, "product-carry", w, f"{len(vs)} variables")
    inv = "1/(pow(2,[B]))"
    k = limbs(ptext({tuple(sorted(("1/(MODULUS)", bw, wa))): 1}))
    ren = lambda s: s.replace(k, "K").replace(limbs("-MODULUS + pow(2,T)"), "N").replace(limbs(ab), "c").replace(limbs(wa), "a").replace(limbs(bw), "b")
    first, nxt = ren(vs[0]), ren(vs[1])
    nxt, _, d = nxt.rpartition(" for i in ")
    want0 = {tuple(sorted((inv, "K[0]", "N[0]"))): 1, tuple(sorted((inv, "a[0]", "b[0]"))): 1, tuple(sorted((inv, "c[0]"))): -1}
    rep.verdict(Num(5).val(first) == want0, "product-carry", w, f"the first carry is what is left of the lowest limbs: {first[:200]}")
    i = nxt.find("runfold(1..NUM_LIMBS: ")
    if i < 0 or d != "1..NUM_LIMBS":
        return rep.verdict(None, "product-carry", w, nxt[:200])
    j = close(nxt, i + 7)
    init, body = parts(nxt[i + len("runfold(1..NUM_LIMBS: "):j], "; ")
    flat = nxt[:i] + "prev" + nxt[j + 1:]
    ok = init == first and Num(7, {"i": 2}).val(re.sub(r"\bp\d\b", "prev", body)) == Num(7, {"i": 2}).val(flat)
    for n in range(1, 6):
        want = {tuple(sorted((inv, f"c[{n}]"))): -1, tuple(sorted((inv, "prev"))): 1}
        for q in range(n + 1):
            want[tuple(sorted((inv, f"K[{q}]", f"N[{n - q}]")))] = 1
            want[tuple(sorted((inv, f"a[{q}]", f"b[{n - q}]")))] = 1
        ok = ok and Num(7, {"i": n - 1}).val(flat) == want
    rep.verdict(ok, "product-carry", w, "the next carry is what is left of the limbs and the carry before")


def ranges(r, rep, w, consts):
    """every carry is bounded so that it can take its honest values and no equation wraps around in the native field"""
    cs = r.calls("enforce_in_range")
    bits = {}
    for c in cs:
        m = re.fullmatch(r"(first|next),(.*?)( for i in 1\.\.NUM_LIMBS)?", c) if isinstance(c, str) else None
        if not m or (m.group(1) == "next") != bool(m.group(3)):
            return rep.verdict(None, "product-carry-range", w, str(c)[:200])
        bits[m.group(1)] = m.group(2)
    if set(bits) != {"first", "next"}:
        return rep.verdict(False, "product-carry-range", w, f"a carry without a bound: {sorted(bits)} are bounded")

    def ev(s, B, i):
        s = re.sub(r"leading_zeros\(([^()]*)\)", lambda m: str(64 - eval(m.group(1), {"i": i, "B": B}).bit_length()), s)
        return eval(s, {"i": i, "B": B})
    for cf in consts:
        B, N, p = cf["B"], cf["N"], cf["p"]
        ok, why = True, ""
        most = 0
        bound = 0
        for n in range(N):
            try:
                k = ev(bits["first"], B, 0) if n == 0 else ev(bits["next"], B, n - 1)
            except Exception:
                return rep.verdict(None, "product-carry-range", w, str(bits)[:200])
            most = (2 * (n + 1) * (2 ** B - 1) ** 2 + most) // 2 ** B
            if most >= 2 ** k:
                ok, why = False, f"carry {n} can need {most.bit_length()} bits and has {k}"
            if 2 * (n + 1) * (2 ** B - 1) ** 2 + bound >= p or 2 ** B + 2 ** (k + B) >= p:
                ok, why = False, f"limb {n} wraps around"
            bound = 2 ** k
        rep.verdict(ok, "product-carry-range", w, f"carries of {cf['who']}: {why or 'fit'}")


def sums(R, rep, name, bterm):
    """the gates of a sum: the sum without reduction and the result plus the modulus or nothing, limb by limb"""
    const = bterm == "b"
    s = limbs("b + emulated_witness(a)" if const else "emulated_witness(a) + emulated_witness(b)")
    table = {f"{s}[i]": "s_i"}

    def fresh(say, t):
        if t.op == "call" and nm(t) == "create_variable" and len(t.args) == 4:
            x = say.text(t.args[3])
            if x == f"{s}[i]":
                return "s[i]"
            return "carry" + ("2" if "witness(c.0[i])" in x else "1" if re.search(r"(?<!_)witness\(a\.0\[i\]\)", x) else "?")
        return None
    r = R(name, "PlonkCircuit", "cs a b c", extra=fresh)
    if not r.ok:
        return
    w = r.w
    B = "pow(2,B)"
    bi = limbs("b") + "[i]" if const else "b.0[i]"
    kk = "b + emulated_witness(a)" if const else "emulated_witness(a) + emulated_witness(b)"
    try:
        gs = gates(r)
        found = {}
        for k, t, d in gs:
            t0 = t
            t = re.sub(r"runfold\([^;]*: zero\(\); carry([12])\)", r"prev\1", flatten(t))
            m = re.search(r"create_boolean_variable\(", t)
            if m:
                j = close(t, m.end() - 1)
                t = t[:m.start()] + "k" + t[j + 1:].removeprefix(".0")
            t = t.replace(limbs("MODULUS") + "[i]", "m[i]").replace(limbs("b") + "[i]", "b[i]").replace("b.0[i]", "b[i]").replace("a.0[i]", "a[i]").replace("c.0[i]", "c[i]").replace("one()", "1")
            eq = equation(k, t, Num(5, {"i": 0}))
            found[frozenset(eq.items())] = d
        eqs = {"sum-plain": {("a[0]",): 1, ("b[0]",): 1, ("prev1",): 1, ("carry1", B): -1, ("s[0]",): -1}, "sum-reduced": {tuple(sorted(("k", "m[0]"))): 1, ("c[0]",): 1, ("prev2",): 1, ("carry2", B): -1, ("s[0]",): -1}}
        for f, e in eqs.items():
            rep.verdict(any(dict(x) in (e, {m: -c for m, c in e.items()}) for x in found), f, w, f"for every limb {ptext(e)} = 0; found {[ptext(dict(x)) for x in found]}")
        rep.verdict(True if len(found) == 2 else None, "sum-gates", w, f"{len(found)} equations")
        bools = [str(x) for x in r.calls("enforce_bool")]
        for c in ("carry1", "carry2"):
            rep.verdict(any(x.startswith(c + " for i in ") for x in bools), "sum-carry", w, f"the carry {c[-1]} of every limb is zero or one")
        rng = [str(x) for x in r.calls("enforce_in_range")]
        rep.verdict(any(x.startswith("s[i],B for i in ") for x in rng), "sum-range", w, "the limbs of the sum are in their range")
        bv = [str(x) for x in r.calls("create_boolean_variable")]
        rep.verdict(atleast(bv[0], kk) if len(bv) == 1 else False, "sum-quotient", w, f"the modulus is taken away once or not at all, as the value asks for: {bv}")
        ends = [str(flatten(x)) for x in r.calls("enforce_constant")] + [str(x) for x in r.calls("enforce_equal")]
        last = {c for c in "12" for x in ends if re.fullmatch(r"fold\([^;]*: zero\(\); carry%s\),(0|zero\(\))" % c, x) or re.fullmatch(r"zero\(\),fold\([^;]*: zero\(\); carry%s\)" % c, x)}
        for c in "12":
            rep.verdict(c in last, "sum-last-carry", w, f"nothing is carried out of the highest limb ({'the sum' if c == '1' else 'the result plus the modulus'})")
        vs = [str(x) for x in r.calls("create_variable")]
        inv = "1/(pow(2,B))"
        wit = {k: f"witness({k}.0[i])" for k in "abc"}
        named = [(v, k) for k, v in wit.items()] + [(limbs("b") + "[i]", "b"), (limbs("MODULUS") + "[i]", "m"), (inv, inv)] + [(f"witness(prev{k})", f"prev{k}") for k in "12"]
        read = {}
        for x in vs:
            x = quotient(re.sub(r"runfold\([^;]*: zero\(\); carry([12])\)", r"prev\1", flatten(x.rpartition(" for i in ")[0])), kk)
            if x == f"{s}[i]":
                continue
            v = Num(5, name=named).val(x)
            read[2 if any("c" in m for m in v) else 1] = v
        mk = lambda *ms: {tuple(sorted((inv,) + m)): 1 for m in ms}
        for n, e in ((1, mk(("a",), ("b",), ("prev1",))), (2, mk(("k", "m"), ("c",), ("prev2",)))):
            rep.verdict(read.get(n) == e, "sum-carry-value", w, f"the value of carry {n} is the limbs and the carry before over the base: {ptext(read.get(n, {}))[:200]}")
    except Shape as ex:
        rep.verdict(None, "sum-plain", w, str(ex))
    for x in ["check_vars_bound(a.0) is Ok", "check_vars_bound(c.0) is Ok"] + ([] if const else ["check_vars_bound(b.0) is Ok"]):
        r.needs("sum-bound", x, "variables of another circuit are taken")


def quotient(t, kk):
    """a number that is one if the modulus is at most kk and zero otherwise, read as k"""
    for p in parts(t, " + "):
        for f in parts(p, "*"):
            if f.startswith("either("):
                alts = [parts(x, " -> ") for x in parts(f[7:-1], " | ")]
                if len(alts) == 2 and all(len(x) == 2 and x[1] in "01" for x in alts) and {x[1] for x in alts} == {"0", "1"}:
                    ok = [atleast(c, kk) if v == "1" else below(c, kk) for c, v in alts]
                    t = t.replace(f, "k" if all(ok) else "other")
            elif atleast(f, kk) is not None:
                t = t.replace(f, "k" if atleast(f, kk) else "other")
    return t


def order(t, kk):
    """a comparison of the modulus with kk, the modulus first"""
    t = t[1:-1] if t.startswith("(") and close(t, 0) == len(t) - 1 else t
    for w, o in (("Ge", ">="), ("Gt", ">"), ("Le", "<="), ("Lt", "<")):
        t = t.replace(f" {w} ", f" {o} ")
    m = re.fullmatch(r"(.*) (>=|>|<=|<) (.*)", t)
    if not m:
        return None
    x, o, y = m.groups()
    unwrap = lambda z: " + ".join(sorted(parts(z[1:-1].replace(" Add ", " + "), " + "))) if z.startswith("(") and close(z, 0) == len(z) - 1 else z
    x, y = unwrap(x), unwrap(y)
    if x == "MODULUS" and y == kk:
        return o
    if y == "MODULUS" and x == kk:
        return {">=": "<=", ">": "<", "<=": ">=", "<": ">"}[o]
    return None


def atleast(t, kk):
    o = order(t, kk)
    return None if o is None else o == "<="


def below(t, kk):
    o = order(t, kk)
    return None if o is None else o == ">"


def flatten(t):
    """the extents of loops that carry something along do not matter: all the lists have one entry for each limb"""
    out, i = "", 0
    while isinstance(t, str):
        m = re.compile(r"\b(run)?fold\(").search(t, i)
        if not m:
            return out + t[i:]
        j = close(t, m.end() - 1)
        body = t[m.end():j]
        p = parts(body, ": ")
        out += t[i:m.end()] + "D: " + flatten(": ".join(p[1:])) + ")"
        i = j + 1
    return t


def preds(r, conds):
    """texts of the conditions of a case, None for those that have none"""
    out = []
    for c, l in conds:
        c = r.q.norm(c)
        try:
            out.append(r.say.pred(r.q.pred_of(c, r.say.accepted(c, l))))
        except Unknown:
            out.append(None)
    return out


def native(R, rep):
    """an element modulo the native field: each limb times its power of the base"""
    r = R("mod_to_native_field", "PlonkCircuit", "cs a")
    if not r.ok:
        return
    def applies(p, n):
        m = re.fullmatch(r"get\(a\.0,(\d+)\) is (None|Some)", p)
        if m:
            return (int(m.group(1)) < n) == (m.group(2) == "Some")
        m = re.fullmatch(r"(NUM_LIMBS|len\(a\.0\)|\d+) (<|<=|==|!=) (NUM_LIMBS|len\(a\.0\)|\d+)", p)
        if m:
            x, y = (int(z) if z.isdigit() else n for z in (m.group(1), m.group(3)))
            return {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y}[m.group(2)]
        return None
    cases = []
    for cond, v in r.cases(True):
        try:
            s = r.say.text(v)
        except Unknown as ex:
            rep.verdict(None, "native", r.w, str(ex))
            continue
        if not (s.startswith("Ok(") and close(s, 2) == len(s) - 1):
            rep.verdict(None, "native", r.w, s[:200])
            continue
        cases.append((preds(r, cond), s[3:-1]))
    for n in range(1, 12):
        hit = [s for ps, s in cases if all(p is None or applies(p, n) is not False for p in ps)]
        want = {tuple(sorted([f"a.0[{k}]"] + ["pow(2,[B])"] * k)): 1 for k in range(n)}
        if not hit:
            rep.verdict(False, "native", r.w, f"{n} limbs are not taken")
        for s in hit:
            try:
                got = Num(n).val(s)
                rep.verdict(got == want, "native", r.w, f"with {n} limbs: {ptext(got)[:300]}")
            except Shape as ex:
                rep.verdict(None, "native", r.w, str(ex))


# ---- curves
def expr(s):
    """(name, arguments) of a text, or the text"""
    m = re.match(r"[\w']+\(", s)
    if m and close(s, m.end() - 1) == len(s) - 1:
        return m.group()[:-1], [expr(x) for x in parts(s[m.end():-1], ",")] if s[m.end():-1] else []
    return s


def bit(t, env):
    """what a boolean variable is, from the bits in env"""
    if isinstance(t, str):
        if t.endswith(".0") and t[:-2] in env:
            return env[t[:-2]]
        if t in env:
            return env[t]
        if t.endswith(").0"):
            return bit(expr(t[:-2]), env)
        raise Shape("a bit: " + t[:80])
    f, a = t
    if f == "is_emulated_var_equal":
        k = tuple(sorted(map(str, a)))
        if k in env:
            return env[k]
    if f == "is_emulated_var_zero" and ("zero", str(a[0])) in env:
        return env[("zero", str(a[0]))]
    if f == "logic_neg":
        return not bit(a[0], env)
    if f in ("logic_and", "mul"):
        return bit(a[0], env) and bit(a[1], env)
    if f == "logic_or":
        return bit(a[0], env) or bit(a[1], env)
    if f == "is_equal":
        return bit(a[0], env) == bit(a[1], env)
    raise Shape("a bit: " + f)


def elem(t, env, q):
    """what an element of the foreign field is"""
    if isinstance(t, str):
        if t in env:
            return env[t]
        m = re.fullmatch(r"EmulatedVariable\(\[\{zero\(\) x NUM_LIMBS\}\]\{\[0\] := (.*)\}, PhantomData\(\)\)", t)
        if m:
            return int(bit(expr(m.group(1)), env))
        if re.fullmatch(r"-?\d+", t):
            return int(t)
        raise Shape("an element: " + t[:80])
    f, a = t
    if f == "EmulatedVariable":
        raise Shape("an element: " + str(a)[:80])
    ops = {"emulated_add": lambda x, y: x + y, "emulated_add_constant": lambda x, y: x + y, "emulated_sub": lambda x, y: x - y, "emulated_sub_constant": lambda x, y: x - y,
           "emulated_mul": lambda x, y: x * y, "emulated_mul_constant": lambda x, y: x * y}
    if f in ops:
        return ops[f](elem(a[0], env, q), elem(a[1], env, q)) % q
    raise Shape("an element: " + f)


def expr2(s):
    m = re.match(r"[\w']+\(", s)
    if m and not s.startswith("EmulatedVariable(") and close(s, m.end() - 1) == len(s) - 1:
        return m.group()[:-1], [expr2(x) for x in splitargs(s[m.end():-1])]
    return s


def splitargs(s):
    """arguments are separated by commas without blanks"""
    out, d, b = [], 0, 0
    for i, c in enumerate(s):
        d += (c in "([{") - (c in ")]}")
        if d == 0 and c == "," and not s.startswith(", ", i):
            out.append(s[b:i])
            b = i + 1
    return out + [s[b:]] if s else []


def points(rnd):
    """two points of a curve in each case of the group law, and the coefficient a"""
    q = Q377
    x0, y0, x1, y1 = (rnd.randrange(1, q) for _ in range(4))
    a = ((y0 * y0 - x0 ** 3 - (y1 * y1 - x1 ** 3)) * pow(x0 - x1, -1, q)) % q
    p, o, z, t2, h = (x0, y0, False), (x1, y1, False), (0, 0, True), (x0, 0, False), (0, y0, False)
    return (("different points", p, o, a), ("a point and itself", p, p, a), ("a point and its inverse", p, (x0, q - y0, False), a), ("a point of order two and itself", t2, t2, a), ("a point with x zero and itself", h, h, a),
            ("the neutral element and a point", z, p, a), ("a point and the neutral element", p, z, a), ("the neutral element twice", z, z, a))


def weierstrass(R, rep):
    r = R("emulated_sw_ecc_add_gate", "PlonkCircuit", "cs p0 p1 p2 a")
    if not r.ok:
        return
    w, q = r.w, Q377
    rnd = random.Random(7)
    calls = {k: r.calls(k) for k in ("enforce_equal", "logic_or_gate", "enforce_emulated_var_equal", "enforce_bool", "enforce_constant", "enforce_true", "emulated_add_gate", "emulated_mul_gate", "logic_and_gate", "enforce_false")}
    if any(not isinstance(x, str) or " for " in x or " if " in x for v in calls.values() for x in v):
        return rep.verdict(None, "curve-sum", w, "a constraint under a condition or in a loop")
    if any(calls[k] for k in ("enforce_bool", "enforce_constant", "enforce_true", "emulated_add_gate", "emulated_mul_gate", "logic_and_gate", "enforce_false")):
        rep.verdict(None, "curve-sum", w, "other constraints than those known")

    def accepts(P0, P1, P2, a):
        """do all constraints hold for these points (x, y, infinite)"""
        ps = (P0, P1, P2)
        env = {"a": a}
        for i, p in enumerate(ps):
            env |= {f"p{i}.0": p[0], f"p{i}.1": p[1], f"p{i}.2": bool(p[2]), f"p{i}.2.0": bool(p[2])}
        for i, j in itertools.product(range(3), repeat=2):
            for c in (0, 1):
                env[tuple(sorted((f"p{i}.{c}", f"p{j}.{c}")))] = ps[i][c] == ps[j][c]
        for i in range(3):
            for c in (0, 1):
                env[("zero", f"p{i}.{c}")] = ps[i][c] == 0

        def b(t):
            s = t
            if not isinstance(t, str) and t[0] == "is_emulated_sw_point_equal":
                i, j = (int(x[1]) for x in t[1])
                return ps[i] == ps[j]
            if isinstance(t, str) and t.endswith(".0") and t.startswith("is_emulated_sw_point_equal("):
                return b(expr2(t[:-2]))
            if isinstance(t, str) and t.endswith(").0"):
                return b(expr2(t[:-2]))
            if isinstance(t, str):
                return bit(t, env)
            f, x = t
            if f == "logic_neg":
                return not b(x[0])
            if f in ("logic_and", "mul"):
                return bool(b(x[0])) & bool(b(x[1]))
            if f == "logic_or":
                return bool(b(x[0])) | bool(b(x[1]))
            if f == "is_equal":
                return b(x[0]) == b(x[1])
            return bit(t, env)

        def e(t):
            if isinstance(t, str):
                m = re.fullmatch(r"EmulatedVariable\(\[\{zero\(\) x NUM_LIMBS\}\]\{\[0\] := (.*)\}, PhantomData\(\)\)", t)
                return int(b(expr2(m.group(1)))) if m else elem(t, env, q)
            f, x = t
            ops = {"add": lambda m, n: m + n, "sub": lambda m, n: m - n, "mul": lambda m, n: m * n}
            k = f.removeprefix("emulated_").removesuffix("_constant")
            if f.startswith("emulated_") and k in ops:
                return ops[k](e(x[0]), e(x[1])) % q
            raise Shape("an element: " + f)
        for s in calls["enforce_equal"]:
            x = splitargs(s)
            if b(expr2(x[0])) != b(expr2(x[1])):
                return False
        for s in calls["logic_or_gate"]:
            x = splitargs(s)
            if not (b(expr2(x[0])) or b(expr2(x[1]))):
                return False
        for s in calls["enforce_emulated_var_equal"]:
            x = splitargs(s)
            if e(expr2(x[0])) % q != e(expr2(x[1])) % q:
                return False
        return True

    def add(p, o, a):
        if p[2]:
            return o
        if o[2]:
            return p
        if p[0] == o[0] and (p[1] != o[1] or p[1] == 0):
            return (0, 0, True)
        s = (3 * p[0] ** 2 + a) * pow(2 * p[1], -1, q) if p == o else (p[1] - o[1]) * pow(p[0] - o[0], -1, q)
        x = (s * s - p[0] - o[0]) % q
        return (x, (s * (p[0] - x) - p[1]) % q, False)
    try:
        cases = {}
        for _ in range(4):
            for what, m, n, al in points(rnd):
                s = add(m, n, al)
                ok, why = accepts(m, n, s, al), "the sum is not accepted"
                if ok:
                    x, y = rnd.randrange(q), rnd.randrange(q)
                    wrong = [(s[0], s[1], not s[2]), (x, y, False), (s[0], y, s[2]), (x, s[1], s[2]), (s[0], (q - s[1]) % q, s[2]), m, n, (x, y, True), (0, 0, True)]
                    wrong = [v for v in wrong if v != s and not (v[2] and s[2] and not m[2] and not n[2])]
                    hit = [v for v in wrong if accepts(m, n, v, al)]
                    ok = not hit
                    why = f"another point is accepted as well ({'infinite' if hit and hit[0][2] else 'finite'})"
                old = cases.get(what, (True, ""))
                cases[what] = old if not old[0] else (ok, "" if ok else why)
        for what, (ok, why) in cases.items():
            rep.verdict(ok, "curve-sum", w, f"short Weierstrass, {what}: {why or 'the sum and nothing else is accepted'}")
    except Shape as ex:
        rep.verdict(None, "curve-sum", w, str(ex))
    r = R("emulated_sw_ecc_add", "PlonkCircuit", "cs p0 p1 a")
    if r.ok:
        X = lambda i, c: f"emulated_witness(p{i}.{c})"
        inf = lambda i: f"witness(p{i}.2.0)"
        got = {}
        for c, v in r.cases(True):
            try:
                got.setdefault(r.say.text(v), []).append(c)
            except Unknown as ex:
                rep.verdict(None, "curve-sum-value", r.w, str(ex))
        bad = None
        for t in got:
            m = re.fullmatch(r"Ok\(create_emulated_sw_point_variable\(SWPoint\((.*)\)\)\)", t)
            if not m:
                bad = t[:200]
                continue
            x, y, i = parts(m.group(1))
            a, x0, y0, x1, y1 = 5, 11, 7, 3, 2
            nums = {X(0, 0): x0, X(0, 1): y0, X(1, 0): x1, X(1, 1): y1, "a": a}
            try:
                if (x, y) == (X(1, 0), X(1, 1)) or (x, y) == (X(0, 0), X(0, 1)):
                    k = x[-4]
                    good = i in (f"({inf(k)} Eq 1)", f"(1 Eq {inf(k)})")
                elif (x, y) == ("0", "0"):
                    good = i == "True"
                else:
                    vals = (fieldval(x, nums, q), fieldval(y, nums, q))
                    good = i == "False" and (vals == addv(x0, y0, x1, y1, q) or all((fieldval(x, nums | {X(1, 0): x0, X(1, 1): y0}, q), fieldval(y, nums | {X(1, 0): x0, X(1, 1): y0}, q)) == dbl(x0, y0, a, q) for _ in (0,)))
            except (Shape, ZeroDivisionError) as ex:
                rep.verdict(None, "curve-sum-value", r.w, f"{ex}")
                continue
            if not good:
                bad = t[:200]
        for what, m, n, al in points(rnd):
            nums = {X(0, 0): m[0], X(0, 1): m[1], X(1, 0): n[0], X(1, 1): n[1], inf(0): int(m[2]), inf(1): int(n[2]), "a": al}
            want, hit, odd = add(m, n, al), [], False
            for t, cs in got.items():
                b = re.fullmatch(r"Ok\(create_emulated_sw_point_variable\(SWPoint\((.*)\)\)\)", t)
                for c in cs:
                    ok = True
                    for p in preds(r, c):
                        z = re.fullmatch(r"(.*) (==|!=) 0", p or "")
                        if z:
                            try:
                                ok = ok and (fieldval(z.group(1), nums, q) == 0) == (z.group(2) == "==")
                            except Shape:
                                odd = True
                    if ok and b:
                        x, y, i = parts(b.group(1))
                        try:
                            hit.append((fieldval(x, nums, q), fieldval(y, nums, q), i == "True" or i != "False" and nums.get(i[1:-6], nums.get(i[6:-1])) == 1))
                        except (Shape, ValueError):
                            odd = odd or False
            rep.verdict(True if want in hit else None if odd else False, "curve-sum-value", r.w, f"short Weierstrass, {what}: the sum is computed")
        rep.verdict(bad is None and len(got) == 5, "curve-sum-value", r.w, f"the sum computed is one of the points, the neutral element, or that of the chord or tangent: {bad or len(got)}")
        g = [str(x) for x in r.calls("emulated_sw_ecc_add_gate")]
        rep.verdict(len(g) == 1 and g[0].startswith("p0,p1,create_emulated_sw_point_variable(SWPoint("), "curve-sum-value", r.w, f"the result is constrained: {[x[:80] for x in g]}")


def addv(x0, y0, x1, y1, q):
    s = (y0 - y1) * pow(x0 - x1, -1, q)
    x = (s * s - x0 - x1) % q
    return x, (s * (x0 - x) - y0) % q


def dbl(x0, y0, a, q):
    s = (3 * x0 * x0 + a) * pow(2 * y0, -1, q)
    x = (s * s - 2 * x0) % q
    return x, (s * (x0 - x) - y0) % q


def fieldval(s, nums, q):
    """the number a sum of products of known values and inverses is"""
    s = s.strip()
    if s in nums:
        return nums[s] % q
    ps = parts(s, " + ")
    if len(ps) > 1:
        return sum(fieldval(p, nums, q) for p in ps) % q
    ps = parts(s, "*")
    if len(ps) > 1:
        r = 1
        for p in ps:
            r = r * fieldval(p, nums, q) % q
        return r
    if s.startswith("-"):
        return -fieldval(s[1:], nums, q) % q
    if re.fullmatch(r"\d+", s):
        return int(s) % q
    if s.startswith("1/(") and close(s, 2) == len(s) - 1:
        return pow(fieldval(s[3:-1], nums, q), -1, q)
    raise Shape("a value: " + s[:80])


def edwards(R, rep):
    r = R("emulated_te_ecc_add_gate", "PlonkCircuit", "cs p0 p1 p2 d")
    q = Q377
    if r.ok:
        cs = r.calls("emulated_add_gate") + []
        eq = r.calls("enforce_emulated_var_equal")
        mg = r.calls("emulated_mul_gate")
        if any(not isinstance(x, str) or " for " in x or " if " in x for x in cs + eq + mg):
            rep.verdict(None, "curve-sum", r.w, "a constraint under a condition or in a loop")
        else:
            rnd = random.Random(5)
            try:
                def e(t, env):
                    if isinstance(t, str):
                        return elem(t, env, q)
                    f, x = t
                    k = f.removeprefix("emulated_").removesuffix("_constant")
                    v = [e(y, env) for y in x]
                    if f.startswith("emulated_") and k in ("add", "sub", "mul"):
                        return (v[0] + v[1] if k == "add" else v[0] - v[1] if k == "sub" else v[0] * v[1]) % q
                    raise Shape("an element: " + f)

                def accepts(env):
                    for s, k in [(s, "add") for s in cs] + [(s, "eq") for s in eq] + [(s, "mul") for s in mg]:
                        v = [e(expr2(x), env) for x in splitargs(s)]
                        if k == "add" and (v[0] + v[1] - v[2]) % q or k == "eq" and (v[0] - v[1]) % q or k == "mul" and (v[0] * v[1] - v[2]) % q:
                            return False
                    return True
                ok, why = True, ""
                for _ in range(4):
                    x0, y0, x1, y1, d, u, v = (rnd.randrange(q) for _ in range(7))
                    k = d * x0 * x1 * y0 * y1
                    x2, y2 = (x0 * y1 + x1 * y0) * pow(1 + k, -1, q) % q, (y0 * y1 + x0 * x1) * pow(1 - k, -1, q) % q
                    env = {"p0.0": x0, "p0.1": y0, "p1.0": x1, "p1.1": y1, "d": d}
                    if not accepts(env | {"p2.0": x2, "p2.1": y2}):
                        ok, why = False, "the sum is not accepted"
                    elif any(accepts(env | {"p2.0": s, "p2.1": t}) for s, t in ((u, v), (x2, v), (u, y2), (y2, x2), (-x2 % q, y2), (x2, -y2 % q))):
                        ok, why = False, "another point is accepted as well"
                rep.verdict(ok, "curve-sum", r.w, f"twisted Edwards: {why or 'the sum and nothing else is accepted'}")
            except Shape as ex:
                rep.verdict(None, "curve-sum", r.w, str(ex))
    r = R("emulated_te_ecc_add", "PlonkCircuit", "cs p0 p1 d")
    if r.ok:
        W = lambda i, c: f"emulated_witness(p{i}.{c})"
        k = f"d*{W(0, 0)}*{W(0, 1)}*{W(1, 0)}*{W(1, 1)}"
        p = f"create_emulated_te_point_variable(TEPoint(1/(1 + {k})*{W(0, 0)}*{W(1, 1)} + 1/(1 + {k})*{W(0, 1)}*{W(1, 0)}, 1/(1 + -{k})*{W(0, 0)}*{W(1, 0)} + 1/(1 + -{k})*{W(0, 1)}*{W(1, 1)}))"
        r.value("curve-sum-value", f"Ok({p})", "the sum by the addition law of the twisted Edwards curve")
        r.does("curve-sum-value", "emulated_te_ecc_add_gate", f"p0,p1,{p},d", "the result is constrained")


def simple(R):
    lst = "from_emulated_field"
    r = R("biguint_to_limbs", None, "val b n")
    if r.ok:
        run = "runfold(0..n: val; 1/((1 Shl b))*p0)"
        r.value("limbs", f"[{{({run} Rem (1 Shl b)) for i in 0..n}}]", "each limb is what is left of the rest, which is then divided by the base")
    r = R("from_emulated_field", None, "val")
    if r.ok:
        r.value("limbs", "biguint_to_limbs(val,B,NUM_LIMBS)", "the limbs of the value")
    r = R("to_emulated_field", None, "vals")
    if r.ok:
        r.value("limbs", "Ok(fold(rev(vals): 0; (1 Shl B)*p0 + rev(vals)[i]))", "from the highest limb on, the value so far times the base plus the limb")
        r.needs("limbs", "-NUM_LIMBS + len(vals) == 0", "lists of another length are taken")
    r = R("emulated_witness", "PlonkCircuit", "cs v")
    if r.ok:
        r.value("limbs", "to_emulated_field([{witness(v.0[i]) for i in v.0}])", "the value put together from those of the limbs")
    ls = limbs("val")
    for f, g in (("create_emulated_variable_unchecked", "create_variable"), ("create_constant_emulated_variable", "create_constant_variable"), ("create_public_emulated_variable", "create_public_variable")):
        r = R(f, "PlonkCircuit", "cs val")
        if r.ok:
            r.value("create", f"Ok(EmulatedVariable([{{{g}({ls}[i]) for i in {ls}}}], PhantomData()))", "a variable for each limb")
    r = R("create_emulated_variable", "PlonkCircuit", "cs val")
    if r.ok:
        u = "create_emulated_variable_unchecked(val)"
        r.value("create", f"Ok({u})", "the variables of the limbs")
        r.does("create-range", "enforce_in_range", f"{u}.0[i],B for i in {u}.0", "each limb is in its range")
    W = lambda x: f"emulated_witness({x})"
    for f, v, g, args in (("emulated_mul", f"{W('a')}*{W('b')}", "emulated_mul_gate", "a,b,{}"), ("emulated_mul_constant", f"b*{W('a')}", "emulated_mul_constant_gate", "a,b,{}"),
                          ("emulated_add", f"{W('a')} + {W('b')}", "emulated_add_gate", "a,b,{}"), ("emulated_sub", f"{W('a')} + -{W('b')}", "emulated_add_gate", "{},b,a"),
                          ("emulated_add_constant", f"b + {W('a')}", "emulated_add_constant_gate", "a,b,{}"), ("emulated_sub_constant", f"-b + {W('a')}", "emulated_add_constant_gate", "{},b,a")):
        r = R(f, "PlonkCircuit", "cs a b")
        if r.ok:
            c = f"create_emulated_variable({v})"
            r.value("operation", f"Ok({c})", "a range checked element of this value")
            alt = tuple([args.format(c)] + ([f"b,{c},a"] if f == "emulated_sub" else [f"b,a,{c}"] if f in ("emulated_mul", "emulated_add") else []))
            r.does("operation", g, [alt], "the operands and the result are constrained")
    r = R("conditional_select_emulated", "PlonkCircuit", "cs b p0 p1")
    if r.ok:
        r.value("select", "Ok(EmulatedVariable([{conditional_select(b,p0.0[i],p1.0[i]) for i in p0.0&p1.0}], PhantomData()))", "limb by limb")
        for x in ("check_var_bound(b) is Ok", "check_vars_bound(p0.0) is Ok", "check_vars_bound(p1.0) is Ok"):
            r.needs("select", x, "variables of another circuit are taken")
    r = R("enforce_emulated_var_equal", "PlonkCircuit", "cs a b")
    if r.ok:
        r.does("equal", "enforce_equal", [("a.0[i],b.0[i] for i in a.0&b.0", "b.0[i],a.0[i] for i in a.0&b.0")], "limb by limb")
        for x in ("check_vars_bound(a.0) is Ok", "check_vars_bound(b.0) is Ok"):
            r.needs("equal", x, "variables of another circuit are taken")
    r = R("is_emulated_var_equal", "PlonkCircuit", "cs a b")
    if r.ok:
        r.value("equal", ["logic_and_all([{is_equal(a.0[i],b.0[i]) for i in a.0&b.0}])", "logic_and_all([{is_equal(b.0[i],a.0[i]) for i in a.0&b.0}])"], "all limbs are equal")
        for x in ("check_vars_bound(a.0) is Ok", "check_vars_bound(b.0) is Ok"):
            r.needs("equal", x, "variables of another circuit are taken")
    r = R("is_emulated_var_zero", "PlonkCircuit", "cs a")
    if r.ok:
        r.value("equal", "logic_and_all([{is_zero(a.0[i]) for i in a.0}])", "all limbs are zero")
        r.needs("equal", "check_vars_bound(a.0) is Ok", "variables of another circuit are taken")
    for k, N, n in (("sw", "EmulatedSWPointVariable", 3), ("te", "EmulatedTEPointVariable", 2)):
        for f, g, h in (("create_emulated_%s_point_variable", "create_emulated_variable", "create_boolean_variable(p.2)"),
                        ("create_constant_emulated_%s_point_variable", "create_constant_emulated_variable", None), ("create_public_emulated_%s_point_variable", "create_public_emulated_variable", "create_public_boolean_variable(p.2)")):
            r = R(f % k, "PlonkCircuit", "cs p")
            if r.ok:
                hs = [f", {h}"] if h else [", BoolVar(either(p.2 -> one() | not p.2 -> zero()))", ", BoolVar(either(p.2 == 1 -> one() | p.2 == 0 -> zero()))"]
                if n == 2:
                    r.value("point-create", f"Ok({N}({g}(p.0), {g}(p.1)))", "the coordinates of the point")
                elif h:
                    r.value("point-create", f"Ok({N}({g}(p.0), {g}(p.1), {h}))", "the coordinates of the point and whether it is infinite")
                else:
                    r.casewise("point-create", {f"Ok({N}({g}(p.0), {g}(p.1), BoolVar(one())))": ["p.2"], f"Ok({N}({g}(p.0), {g}(p.1), BoolVar(zero())))": ["not p.2"]}, "the coordinates of the point and whether it is infinite")
        r = R(f"emulated_{k}_point_witness", "PlonkCircuit", "cs v")
        if r.ok:
            xy = "emulated_witness(v.0), emulated_witness(v.1)"
            r.value("point-witness", f"Ok(TEPoint({xy}))" if n == 2 else [f"Ok(SWPoint({xy}, (witness(v.2.0) Eq 1)))", f"Ok(SWPoint({xy}, (1 Eq witness(v.2.0))))"], "the values of the coordinates" + (", infinite if the variable is one" if n == 3 else ""))
        P = k.upper() + "Point"
        r = R("serialize_to_native_elements", None, "p", pick=P + "<")
        if r.ok:
            xy = f"*{limbs('p.0')}, *{limbs('p.1')}"
            if n == 2:
                r.value("point-limbs", f"[{xy}]", "the limbs of the coordinates in turn")
            else:
                r.casewise("point-limbs", {f"[{xy}, 1]": ["p.2"], f"[{xy}, 0]": ["not p.2"]}, "the limbs of the coordinates in turn, then one for the infinite point and zero for others")
        r = R(f"enforce_emulated_{k}_point_equal", "PlonkCircuit", "cs p o")
        if r.ok:
            r.does("point-equal", "enforce_emulated_var_equal", [("p.0,o.0", "o.0,p.0"), ("p.1,o.1", "o.1,p.1")], "both coordinates are equal")
            r.does("point-equal", "enforce_equal", [("p.2.0,o.2.0", "o.2.0,p.2.0")] if n == 3 else [], "both are infinite or neither")
        r = R(f"is_emulated_{k}_point_equal", "PlonkCircuit", "cs p o")
        if r.ok:
            rep = r.rep
            for _, v in r.cases():
                try:
                    s = r.say.text(v)
                except Unknown as ex:
                    rep.verdict(None, "point-equal", r.w, str(ex))
                    continue
                atoms = {"is_emulated_var_equal(p.0,o.0)", "is_emulated_var_equal(p.1,o.1)"} | ({"is_equal(p.2.0,o.2.0)"} if n == 3 else set())
                m = re.fullmatch(r"Ok\((.*)\)", s)
                e = re.fullmatch(r"(is_emulated_var_equal\([^()]*\)|is_equal\([^()]*\))\{\.0 := (.*)\}", m.group(1)) if m else None
                body = e.group(2) if e else m.group(1) if m else s
                leaves = set(re.findall(r"is_emulated_var_equal\([^()]*\)|is_equal\([^()]*\)", body))
                rest = re.sub(r"is_emulated_var_equal\([^()]*\)|is_equal\([^()]*\)|mul|logic_and|BoolVar|\.0|[(), ]|logic_and_all|\[|\]", "", body)
                rep.verdict(None if rest else leaves == atoms, "point-equal", r.w, f"all coordinates are equal: {s[:300]}")
        r = R(f"binary_emulated_{k}_point_vars_select", "PlonkCircuit", "cs b p o")
        if r.ok:
            c = "conditional_select_emulated(b,p.0,o.0), conditional_select_emulated(b,p.1,o.1)"
            r.value("select", f"Ok({N}({c}{', BoolVar(conditional_select(b,p.2.0,o.2.0))' if n == 3 else ''}))", "coordinate by coordinate")


def configs(rep, prog):
    """the constants of each pair of fields"""
    out = {}
    for k in ("T", "B", "NUM_LIMBS"):
        for f in prog.find(REL, k, None):
            if "EmulationConfig" not in (f.trait or ""):
                continue
            r = Rule(rep, prog, REL, k, None, OPS, None, "=" + f.path)
            m = re.findall(r"\bark_\w+::\w+Config", f.traitref)
            if not r.ok or len(m) != 2:
                rep.verdict(None, "config", f.path, "which fields it is for is not clear")
                continue
            vs = [r.say.text(v) for _, v in r.cases()]
            if len(vs) != 1 or not vs[0].isdigit():
                rep.verdict(None, "config", f.path, f"{k} is {vs}")
                continue
            out.setdefault((m[0], m[1]), {})[k] = int(vs[0])
    res = []
    for (e, f), c in sorted(out.items()):
        w = f"{e} over {f}"
        if e not in FIELD or f not in FIELD or set(c) != {"T", "B", "NUM_LIMBS"}:
            rep.verdict(None, "config", w, "unknown fields")
            continue
        q, p = FIELD[e], FIELD[f]
        rep.verdict(c["B"] * c["NUM_LIMBS"] == c["T"], "config", w, f"the limbs make up the power of two: {c}")
        rep.verdict(p << c["T"] > q * q + q and q < 1 << c["T"], "config", w, f"products of reduced elements stay below the power of two times the native modulus: {c}")
        res.append(dict(q=q, p=p, T=c["T"], B=c["B"], N=c["NUM_LIMBS"], who=w))
    return res


def exact(R, rep, consts):
    """are the equations of a product true of integers, and is the representation of an element unique: from the bounds the limbs of an element get"""
    r = R("create_emulated_variable", "PlonkCircuit", "cs val")
    g = R("emulated_mul_gate", "PlonkCircuit", "cs a b c", extra=fresh)
    if not r.ok or not g.ok:
        return
    u = "create_emulated_variable_unchecked(val)"
    cs = [str(x) for x in r.calls("enforce_in_range")]
    plain = cs == [f"{u}.0[i],B for i in {u}.0"]
    others = [k for k in ("enforce_lt", "enforce_leq", "enforce_lt_constant", "enforce_leq_constant", "enforce_constant", "enforce_lt_internal") if r.calls(k)]
    if not plain or others or len(r.calls("create_emulated_variable_unchecked")) != 1:
        rep.verdict(None, "product-exact", g.w, f"the bounds of an element are not those known: {cs} {others}")
        return
    bad = [c["who"] for c in consts if not ((1 << 2 * c["T"]) < c["p"] << c["T"] and (c["q"] << c["T"]) + (1 << c["T"]) < c["p"] << c["T"])]
    rep.verdict(not bad, "product-exact", g.w, "the product less the quotient times the modulus and the result cannot differ by a multiple of the native modulus times 2^T: elements, and with them the quotient, are bounded by 2^T only, "
                f"too much for {', '.join(bad)}")
    bad = [c["who"] for c in consts if (1 << c["T"]) > c["q"]]
    rep.verdict(not bad, "element-unique", r.w, f"limbs below 2^B leave one representation for an element; more than one for {', '.join(bad)}")


def conversion(R, rep, prog):
    """from the short Weierstrass form of the curve of BLS12-377 to its twisted Edwards form with a = -1"""
    fs = [f for f in prog.find(REL, "from", None) if f.file.endswith("ecc/conversion.rs")]
    ks = {}
    for k in ("S", "NEG_ALPHA", "BETA"):
        for f in prog.find(REL, k, None):
            if "SWToTE" in (f.trait or "") and "ark_bls12_377::FqConfig" in f.traitref:
                r = Rule(rep, prog, REL, k, None, OPS, None, "=" + f.path)
                t = r.say.text(r.cases()[0][1]) if r.ok and r.cases() else ""
                m = re.fullmatch(r"new\(\[([\d, ]+)\]\)", t)
                if m:
                    ks[k] = sum(int(x) << 64 * i for i, x in enumerate(m.group(1).split(", ")))
    w = "ark_bls12_377::FqConfig"
    if set(ks) == {"S", "NEG_ALPHA", "BETA"}:
        q, s, na, be = Q377, ks["S"], ks["NEG_ALPHA"], ks["BETA"]
        al = -na % q
        A, B = 3 * al * s % q, s
        rep.verdict((al ** 3 + 1) % q == 0, "conversion-constants", w, "alpha is a root of x^3 + 1")
        rep.verdict(3 * al * al * s * s % q == 1, "conversion-constants", w, "s is the inverse of a square root of 3 alpha^2")
        rep.verdict((be * be * B + A + 2) % q == 0, "conversion-constants", w, "beta scales the curve to a = -1")
    else:
        rep.verdict(None, "conversion-constants", w, f"found {sorted(ks)}")
    if len(fs) != 1:
        return rep.verdict(None if fs else False, "conversion", "gadgets::ecc::conversion", f"{len(fs)} conversions")
    r = Rule(rep, prog, REL, "from", None, OPS, "p", "=" + fs[0].path)
    if r.ok:
        got = {}
        for c, v in r.cases(True):
            try:
                got[r.say.text(v)] = c
            except Unknown as ex:
                return rep.verdict(None, "conversion", r.w, str(ex))
        rep.verdict("TEPoint(0, 1)" in got, "conversion", r.w, "the infinite point becomes the neutral element")
        for t in got:
            if t == "TEPoint(0, 1)":
                continue
            m = re.fullmatch(r"TEPoint\((.*)\)", t)
            try:
                x, y = parts(m.group(1))
                q = Q377
                n = {"p.x": 1234567, "p.y": 7654321, "S": 99, "NEG_ALPHA": 5, "BETA": 77}
                mx, my = 99 * (1234567 + 5) % q, 99 * 7654321 % q
                vx, vy = fieldval(x, n, q), fieldval(y, n, q)
                rep.verdict(vx == 77 * mx * pow(my, -1, q) % q and vy == (mx - 1) * pow(mx + 1, -1, q) % q, "conversion", r.w, f"u = s(x - alpha), v = s y; (beta u/v, (u-1)/(u+1)): {t[:300]}")
            except (Shape, AttributeError) as ex:
                rep.verdict(None, "conversion", r.w, f"{ex}: {t[:200]}")
        rep.verdict(True if len(got) == 2 else None, "conversion", r.w, f"{len(got)} cases")


@check("C08", [REL], """Arithmetic of a foreign field in limbs, and curves over it. Decided: elements are cut into limbs and put together again by the same base; variables for them bound every limb; the gates of
a product are, limb by limb, the polynomial identity of the product modulo the power of two (the terms of each limb are summed up through the pending list, whatever the order, at every number of limbs up to
seven) and the identity modulo the native field; the carries are bounded, can take their honest values and cannot wrap around; sums carry zero or one and nothing out of the highest limb; selection and
equality go limb by limb; the gates of point addition, evaluated as polynomials and truth tables at the cases of the group law, accept the sum and nothing else; the conversion between curve forms and its constants
are those of the published curve. From the bounds on elements: whether the equations of a product are true of integers, and whether representations are unique.""", floor=60)
def emulated(rep, prog):
    def R(name, head, names, extra=None, **k):
        return Rule(rep, prog, REL, name, head, OPS, names, cs=1 if names.startswith("cs") else None, extra=extra, **k)
    consts = configs(rep, prog)
    simple(R)
    product(R, rep, prog, "emulated_mul_gate", "emulated_witness(b)", consts)
    product(R, rep, prog, "emulated_mul_constant_gate", "b", consts)
    sums(R, rep, "emulated_add_gate", "")
    sums(R, rep, "emulated_add_constant_gate", "b")
    native(R, rep)
    weierstrass(R, rep)
    edwards(R, rep)
    exact(R, rep, consts)
    conversion(R, rep, prog)
