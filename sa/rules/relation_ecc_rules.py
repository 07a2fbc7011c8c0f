"""jf-relation: scalar multiplication gadgets."""
import re
from common import *
from algebra import *
from say import *
from core import check

REL = "jf_relation"
OPS = set("""create_variable create_constant_variable create_boolean_variable create_public_variable lc lc_gate sum mul mul_gate add sub add_gate sub_gate mul_add mul_add_gate add_constant mul_constant
 add_constant_gate mul_constant_gate is_zero is_equal logic_neg logic_and logic_or logic_or_gate enforce_equal enforce_constant enforce_bool enforce_true non_zero_gate conditional_select check_var_bound
 check_vars_bound check_point_var_bound unpack range_gate_internal range_gate_with_lookup enforce_in_range is_in_range decomposition_gate truncate_gate truncate witness true_var false_var zero one
 support_lookup range_bit_len range_size insert_gate add_range_check_variable ecc_add is_neutral_point quaternary_point_select binary_point_vars_select create_point_variable
 create_constant_point_variable neutral_point_variable inverse_point point_witness compute_base_points enforce_point_equal fixed_base_scalar_mul variable_base_binary_scalar_mul
 variable_base_scalar_mul inverse next_base fill_bases glv_mul msm msm_pippenger msm_naive msm_with_var_scalar_length decompose_scalar_var create_point_lookup_gates compute_scalar_mul_value
 ln_without_floats create_table_and_lookup_variables fq_to_fr scalar_decomposition_gate endomorphism_circuit multi_scalar_mul_circuit endomorphism gen_quad_poly scalar_decomposition field_switching
 from_le_bytes_mod_order""".split())

# the Bandersnatch curve -5x^2 + y^2 = 1 + dx^2y^2 over the scalar field of BLS12-381, of prime order r times 4
Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513
R_ = 13108968793781547619861935127046491459309155893440570251786403306729687672801
D = 138827208126141220649022263972958607803 * pow(171449701953573178309673572579671231137, -1, Q) % Q
G = (18886178867200960497001835917649091219057080094937609519140440539760939937304, 19188667384257783945677642223292697773471335439753913231509108946878080696678)


def number(say, t):
    """what bytes in the program stand for"""
    if t.op != "call" or nm(t) not in ("from_le_bytes_mod_order", "from_be_bytes_mod_order") or len(t.args) != 3:
        return None
    x = say.q.norm(t.args[2])
    if x.op == "const" and isinstance(x.args[0], str) and x.args[0].startswith("b:"):
        bs = [int(b) for b in x.args[0][2:].split(",")]
        return f"c{int.from_bytes(bytes(bs), 'little' if '_le_' in nm(t) else 'big')}"
    if x.op == "field" and x.args[1] in (1, "1"):
        c = say.q.norm(x.args[0])
        if c.op == "call" and nm(c) == "to_bytes_le" and len(c.args) == 3 and "_le_" in nm(t):
            return f"fq({say.text(c.args[2])})"
    return None


LAM = 8913659658109529928382530854484400854125314752504019737736543920008458395397
assert (LAM * LAM + 2) % R_ == 0


def plus(p, q):
    k = D * p[0] * q[0] * p[1] * q[1]
    return (p[0] * q[1] + p[1] * q[0]) * pow(1 + k, -1, Q) % Q, (p[1] * q[1] + 5 * p[0] * q[0]) * pow(1 - k, -1, Q) % Q


def times(k, p):
    r = (0, 1)
    while k:
        if k & 1:
            r = plus(r, p)
        p, k = plus(p, p), k >> 1
    return r


def fixed(R):
    n = "(1 BitAnd MODULUS_BIT_SIZE) + MODULUS_BIT_SIZE"
    h = "(1 BitAnd MODULUS_BIT_SIZE)*1/(2) + 1/(2)*MODULUS_BIT_SIZE"
    r = R("fixed_base_scalar_mul", "PlonkCircuit", "cs s base")
    if r.ok:
        p = ",".join(f"TEPoint(aff(compute_base_points(base,{h})[{k}][i]).x, aff(compute_base_points(base,{h})[{k}][i]).y)" for k in range(3))
        sel = f"quaternary_point_select(unpack(s,{n})[2*i],unpack(s,{n})[1 + 2*i],{p})"
        r.value("fixed-base", [f"Ok(fold(0..{h}: neutral_point_variable(); ecc_add({x})))" for x in (f"p0,{sel}", f"{sel},p0")], "for every two bits of the scalar their multiple of the power of four of the base is added")
        r.needs("fixed-base", "check_var_bound(s) is Ok", "a variable of another circuit is taken")
    r = R("compute_base_points", None, "base n")
    if r.ok:
        r.value("base-points", "Ok([fill_bases'0([base],n), fill_bases'0([2*base],n), fill_bases'0([3*base],n)])", "the lists that start with the base, its double and its triple")
        r.needs("base-points", "n != 0", "empty lists are made")
    r = R("next_base", None, "bases")
    if r.ok:
        r.value("base-points", "Ok(4*bases[-1])", "the next entry is four times the last one")
    r = R("fill_bases", None, "bases n")
    if r.ok:
        r.after("base-points", 1, "[*bases, {next_base(sofar) for i in 1..n}]", "the list is filled up to its length")


def variable(R):
    r = R("variable_base_binary_scalar_mul", "PlonkCircuit", "cs bits base")
    if r.ok:
        z, o = "rev(Range(0, len(bits)))", "neutral_point_variable()"
        sel = f"binary_point_vars_select(bits[i],{o},base)"
        rz, rsel = "rev(bits)", f"binary_point_vars_select(rev(bits)[i],{o},base)"
        r.value("binary", [f"Ok(fold({l}: {o}; ecc_add({x})))" for l, e in ((z, sel), (rz, rsel)) for x in (f"ecc_add(p0,p0),{e}", f"{e},ecc_add(p0,p0)")], "from the highest bit on: double, and add the base where the bit is set")
        r.needs("binary", "check_point_var_bound(base) is Ok", "a point of another circuit is taken")
    r = R("variable_base_scalar_mul", "PlonkCircuit", "cs s base")
    if r.ok:
        r.value("variable-base", ["msm([base],[s])", "glv_mul(s,base)"], "the scalar times the base")
        r.does("variable-base", "glv_mul", "s,base if -253 + MODULUS_BIT_SIZE == 0 & -255 + MODULUS_BIT_SIZE == 0 & support_lookup()", "only over the curve with that endomorphism")
        r.needs("variable-base", "check_var_bound(s) is Ok", "a variable of another circuit is taken")
        r.needs("variable-base", "check_point_var_bound(base) is Ok", "a point of another circuit is taken")


def msm(R):
    r = R("msm", "PlonkCircuit", "cs bases scalars")
    if r.ok:
        r.value("msm", "msm_with_var_scalar_length(bases,scalars,MODULUS_BIT_SIZE)", "scalars of all lengths")
    r = R("msm_with_var_scalar_length", "PlonkCircuit", "cs bases scalars n")
    if r.ok:
        r.value("msm", ["msm_naive(bases,scalars,n)", "msm_pippenger(bases,scalars,n)"], "the sum of scalars times bases")
        r.does("msm", "msm_pippenger", "bases,scalars,n if support_lookup()", "with lookups only where they are supported")
        r.needs("msm", "-len(bases) + len(scalars) == 0", "lists of different lengths are taken")
    r = R("msm_naive", None, "cs bases scalars n")
    if r.ok:
        one = lambda i: f"variable_base_binary_scalar_mul(unpack(scalars[{i}],n),bases[{i}])"
        r.value("msm-naive", [f"Ok(fold({l}: {one(0)}; ecc_add({x})))" for l in ("zip(bases,scalars)[1:]", "bases[1:]&scalars[1:]", "1..len(bases)", "1..len(scalars)") for e in (one("i"), one("1 + i"))
                              for x in (f"p0,{e}", f"{e},p0")] + [f"Ok(fold({l}: neutral_point_variable(); ecc_add({x})))" for l in ("bases&scalars",) for x in (f"p0,{one('i')}", f"{one('i')},p0")],
                "every scalar times its base is added once")
        r.needs("msm-naive", "check_vars_bound(scalars) is Ok", "variables of another circuit are taken")
    r = R("decompose_scalar_var", None, "cs s c n")
    if r.ok:
        m = "1 + -1/(c) + 1/(c)*n"
        v = f"create_variable((runfold(0..{m}: into_bigint(witness(s)); (p0 Shr c))[0] Rem (1 Shl c)))"
        vs = f"[{{{v} for i in 0..{m}}}]"
        r.value("windows", f"Ok({vs})", "the windows of the scalar, lowest first")
        r.does("windows", "decomposition_gate", f"{vs},s,(1 Shl c)", "they give the scalar")
        tops = [f"{vs}[-1/(c) + 1/(c)*n]", f"{vs}[-1]"]
        lens = ["1/(c)*c + -1/(c)*c*n + n", "1 + (-1 + n Rem c)", "1 + ((n Sub 1) Rem c)"]
        conds = lambda b: ("", f" if {b} < c", f" if {b} != c", f" if -c + {b} != 0", f" if {b} + -c != 0")
        r.does("window-canonical", "enforce_in_range", [tuple(f"{t},{b}{x}" for t in tops for b in lens for x in conds(b))],
               "the highest window is bounded so that the windows have no more bits than the scalar and cannot stand for the scalar plus the modulus of the field")
    r = R("create_point_lookup_gates", None, "cs table ss ps")
    if r.ok:
        r.does("window-lookup", "create_table_and_lookup_variables", "[{(ss[i], ps[i].0, ps[i].1) for i in ps&ss}],[{(table[i].0, table[i].1) for i in table}]", "every window is looked up with both coordinates of its point")
    r = R("compute_scalar_mul_value", None, "cs s base")
    if r.ok:
        r.value("window-value", "Ok(fq_to_fr(witness(s))*point_witness(base))", "the window times the base")
    r = R("msm_pippenger", None, "cs bases scalars n")
    if r.ok:
        c = "either(32 <= n -> ln_without_floats(n) | n < 32 -> 3)"
        dec = lambda i: f"decompose_scalar_var(scalars[{i}],{c},n)"
        look = lambda i, j: f"[{{create_point_variable(compute_scalar_mul_value({dec(i)}[{j}],bases[{i}])) for {j} in {dec(i)}}}]"
        def sums(i, j, k):
            return f"[]{{for {i} in bases&scalars {{if len(it) != 0 {{for {j} in {look(i, j)}&it {{[{j}] := ecc_add(it'[{j}],{look(i, k)}[{j}])}}}} | if len(it) == 0 {{:= {look(i, j)}}}}}}}"
        w, v = sums("i", "j", "k"), sums("j", "k", "l")
        tab = f"[neutral_point_variable(), bases[i], {{ecc_add(bases[i],sofar[-1]) for j in 0..-2 + (1 Shl {c})}}]"
        r.does("windows", "create_point_lookup_gates", f"{tab},{dec('i')},{look('i', 'j')} for i in bases&scalars", "each window of each scalar is looked up in the multiples of its base")
        either = lambda x, y: (f"ecc_add({x},{y})", f"ecc_add({y},{x})")
        high = [f"fold(rev({v}[1:]): neutral_point_variable(); fold(0..{c}: {x}; ecc_add(p1,p1)))" for x in either("p0", f"rev({v}[1:])[i]")]
        r.value("window-sum", [x for h in high for x in either(f"{w}[0]", h)], "the sums of the windows, from the highest on doubled once for each bit of a window, and the lowest")


def glv(R):
    r = R("glv_mul", "PlonkCircuit", "cs s base")
    if r.ok:
        d = "scalar_decomposition_gate(s)"
        r.value("glv", f"multi_scalar_mul_circuit(base,{d}.0,endomorphism_circuit(base),{d}.1,{d}.2)", "the first part times the base and the second part times its image")
        r.needs("glv", "check_var_bound(s) is Ok", "a variable of another circuit is taken")
        r.needs("glv", "check_point_var_bound(base) is Ok", "a point of another circuit is taken")
    r = R("multi_scalar_mul_circuit", None, "cs p s1 e s2 sign")
    if r.ok:
        sel = "binary_point_vars_select(sign,e,inverse_point(e))"
        r.value("glv", [f"msm_with_var_scalar_length([p, {sel}],[s1, s2],128)", f"msm_with_var_scalar_length([{sel}, p],[s2, s1],128)"], "the second part is subtracted where its sign is positive and added where it is not")
    for name, names in (("endomorphism", "p"), ("endomorphism_circuit", "cs p")):
        r = R(name, None, names)
        if r.ok:
            endo(r, name)
    r = R("scalar_decomposition", None, "s")
    if r.ok:
        lattice(r)
    r = R("scalar_decomposition_gate", None, "cs s")
    if r.ok:
        pieces(r)


def endo(r, name):
    cs = consts(r)
    b = next((x for x in cs if (x * x + 2 * x - 1) % Q == 0), None)
    c = next((x for x in cs if x != b), None)
    if b is None or c is None or len(cs) != 2:
        return r.rep.verdict(False if cs else None, "endomorphism", r.w, f"constants {cs} are not those of the endomorphism")
    x, y = G
    img = (c * (1 - y * y) * pow(x * y, -1, Q) % Q, b * (y * y + b) * pow(y * y - b, -1, Q) % Q)
    r.rep.verdict(img == times(LAM, G), "endomorphism", r.w, "with these constants the map is not multiplication by the eigenvalue")
    b, c = f"c{b}", f"c{c}"
    if name == "endomorphism":
        # x' = c(1-y^2)/(xy), y' = b(y^2+b)/(y^2-b), over the common denominator
        px, py, pb, pc, one = {("p.0",): 1}, {("p.1",): 1}, {(b,): 1}, {(c,): 1}, {(): 1}
        xy, yy = nmul(px, py), nmul(py, py)
        f, g, h = nmul(pc, nadd(one, yy, -1)), nmul(pb, nadd(yy, pb)), nadd(yy, pb, -1)
        r.value("endomorphism", f"new({ptext(nmul(f, h))},{ptext(nmul(g, xy))},1,{ptext(nmul(h, xy))})", "the image of the point")
    else:
        v = "create_point_variable(endomorphism(point_witness(p)))"
        quad = lambda q, k: f"gen_quad_poly([p.1, p.1, zero(), zero()],[0, 0, 0, 0],[{q}, 0],{k})"
        f, g, h = quad("-" + c, c), quad(b, f"{b}*{b}"), quad("1", "-" + b)
        r.value("endomorphism", f"Ok({v})", "the image of the point")
        gates = []
        for u, w, z in ((f"{v}.0", "mul(p.0,p.1)", f), (f"{v}.1", h, g)):
            gates.append(tuple(f"{a},{d},{z}" for a, d in ((u, w), (w, u), (u, w.replace("mul(p.0,p.1)", "mul(p.1,p.0)")))))
        r.does("endomorphism", "mul_gate", gates, "the image is constrained to be the image")


def consts(r):
    """numbers read from bytes of the program"""
    out = set()
    for e in r.an.events:
        n = e.name.split("::")[-1]
        if n in ("from_le_bytes_mod_order", "from_be_bytes_mod_order") and e.args:
            x = r.q.norm(e.args[0])
            if x.op == "const" and str(x.args[0]).startswith("b:"):
                out.add(int.from_bytes(bytes(int(b) for b in x.args[0][2:].split(",")), "little" if "_le_" in n else "big"))
    return sorted(out)


def lattice(r):
    got = [r.say.text(v) for _, v in r.cases()]
    cs = {int(x) for g in got for x in re.findall(r"\bc(\d+)\b", g)}
    vecs = [(a, b) for a in cs for b in cs if (a + LAM * b) % R_ == 0]
    r.rep.verdict(len(cs) in (3, 4) and len(vecs) >= 2, "lattice", r.w, f"constants {sorted(cs)} are no two vectors that the eigenvalue maps to zero")
    if len(vecs) < 2:
        return
    a, b = sorted(vecs, key=lambda v: v[1])[:2]
    n11, n12, n21, n22 = (f"c{x}" for x in (*a, *b))
    m = lambda *xs: "*".join(sorted(xs))
    b2 = f"((({n12} Mul ((s Mul {n11}) Div MODULUS)) Add ({n22} Mul ((s Mul {n12}) Div MODULUS))) Rem MODULUS)"
    k1 = " + ".join(sorted([f"-1/(MODULUS)*{m(n12, n21)}*s", f"-1/(MODULUS)*{m(n11, n11)}*s"], key=lambda x: x)) + " + s"
    low, high = f"{b2} < 1/(2)*MODULUS", f"1/(2)*MODULUS <= {b2}"
    r.casewise("lattice", {f"({k1}, {x}{b2}, ({b2} Lt (MODULUS Div 2)))": [c] for x, c in (("", low), ("-", high))}, "the scalar less the lattice vector near it")


def linear(s):
    """a linear combination of named variables, as {variable: coefficient}"""
    coef = lambda w: int(w) if re.fullmatch(r"-?\d+", w) else int(w[1:]) if re.fullmatch(r"c\d+", w) else 2 ** 128 if w == "pow(2,128)" else None
    m = re.fullmatch(r"lc\(\[(.*)\],\[(.*)\]\)", s)
    out = {}
    if m:
        ws, cs = m[1].split(", "), [coef(x) for x in m[2].split(", ")]
        if len(ws) != 4 or len(cs) != 4 or None in cs:
            return None
        for w, c in zip(ws, cs):
            if c and w != "zero()":
                out[w] = out.get(w, 0) + c
        return out
    m = re.fullmatch(r"(mul_constant|add|sub)\((\w+),([^,()]+)\)", s)
    if m and m[1] == "mul_constant":
        return {m[2]: coef(m[3])} if coef(m[3]) is not None else None
    if m:
        return {m[2]: 1, m[3]: 1 if m[1] == "add" else -1}
    return {s: 1} if re.fullmatch(r"\w+", s) else None


def equation(s):
    m = re.fullmatch(r"is_equal\((.*)\)", s)
    if not m:
        return None
    ps = parts(m[1], ",")
    if len(ps) != 2:
        return None
    a, b = linear(ps[0]), linear(ps[1])
    return None if a is None or b is None else (a, b)


def pieces(r):
    rep, w = r.rep, r.w
    vs = {r.say.text(v) for _, v in r.cases()}
    d = "scalar_decomposition(field_switching(witness(s)))"
    k1, k2, sg = f"create_variable(fq(into_bigint({d}.0)))", f"create_variable(fq(into_bigint({d}.1)))", f"create_boolean_variable({d}.2)"
    rep.verdict(vs == {f"Ok(({k1}, {k2}, {sg}))"}, "glv-parts", w, f"the two parts and the sign of the second: {sorted(vs)}")
    ties = r.calls("mul_constant_gate")
    if len(ties) != 1 or ties[0] is None:
        return rep.verdict(None, "glv-parts", w, "what ties the upper half to the value is not understood")
    t2, two, t1 = (parts(ties[0], ",") + ["", ""])[:3]
    rep.verdict(two in ("pow(2,128)", str(2 ** 128)), "glv-parts", w, "the lower half of the difference is zero")
    made = [f"create_variable({x})" for x in r.calls("create_variable")]
    rest = [x for x in made if x not in (k1, k2, t2, t1)]
    if len(rest) != 1 or t1 not in made or t2 not in made:
        return rep.verdict(None, "glv-parts", w, "the variables are not understood")
    short = sorted(((k1, "k1"), (k2, "k2"), (sg, "sg"), (t2, "hi"), (t1, "all"), (rest[0], "t")), key=lambda x: -len(x[0]))
    def sub(x):
        for a, b in short:
            x = x.replace(a, b)
        return x
    names = {b: a for a, b in short}
    bounds = {}
    for x in r.calls("enforce_in_range"):
        m = re.fullmatch(r"(\w+),(\d+)", sub(x or ""))
        if m:
            bounds[m[1]] = 2 ** int(m[2]) - 1
    for v in ("k1", "k2", "hi"):
        rep.verdict(v in bounds and bounds[v] < 2 ** 128, "glv-range", w, f"{ {'k1': 'the first part', 'k2': 'the second part', 'hi': 'the upper half of the difference'}[v]} is below 2^128")
    lo, up = LAM % 2 ** 128, LAM >> 128
    r1, r2 = R_ % 2 ** 128, R_ >> 128
    want = {"low": ({"all": 1, "t": -r1, "k1": 1, "k2": lo, "s": -1}, {"all": 1, "t": r1, "k1": 1, "k2": -lo, "s": -1}),
            "high": ({"hi": 1, "t": r2, "k2": -up}, {"hi": 1, "t": -r2, "k2": up})}
    found, exact = {}, True
    for x in r.calls("enforce_true"):
        m = re.fullmatch(r"conditional_select\((.*)\)(\.0)?", sub(x or ""))
        ps = parts(m[1], ",") if m else []
        es = [equation(re.sub(r"\.0$", "", p)) for p in ps[1:]]
        if len(ps) != 3 or ps[0] not in ("sg", "sg.0") or None in es:
            rep.verdict(None, "glv-equation", w, f"an enforced condition is not understood: {sub(x or '')[:200]}")
            continue
        ds = []
        for a, b in es:
            e = dict(a)
            for k, c in b.items():
                e[k] = e.get(k, 0) - c
            ds.append({k: c for k, c in e.items() if c})
            for side in (a, b):
                most = sum(c * (bounds.get(k, bounds["hi"] * 2 ** 128 if k == "all" and "hi" in bounds else Q * Q)) for k, c in side.items())
                exact = exact and most < Q
        neg = lambda e: {k: -c for k, c in e.items()}
        key = next((k for k, (n, p) in want.items() if ds[0] in (n, neg(n)) and ds[1] in (p, neg(p))), None)
        rep.verdict(key is not None, "glv-equation", w, f"the enforced equations (scalar + eigenvalue*second part = first part + multiple of the order, in two halves, by the sign) read {ds}")
        found[key] = 1
    rep.verdict(set(want) <= set(found), "glv-equation", w, "both halves of the equation are enforced")
    rep.verdict(exact, "glv-exact", w, "the equations of the decomposition hold over the integers: every variable in them is bounded and no side reaches the modulus of the field")


@check("C07", [REL], """Scalar multiplication gadgets, read as compositions of the curve and arithmetic gadgets they call. Decided: fixed base multiplication adds for every pair of bits, by a four-way
selection, the right multiple of the base (tables of powers of four of the base, its double and its triple); binary multiplication doubles and adds from the highest bit; the product of lists adds
every scalar times its base once, without lookups by bits and with lookups by windows, whose tables hold the multiples of the base, whose values give the scalar, whose highest one is bounded so that
the windows are unique, and whose sums are put together by doubling once for each bit of a window; over Bandersnatch the endomorphism is that of the eigenvalue (the constants are checked against the
published curve: roots of the defining equations, the image of the generator, the lattice), and the decomposition of the scalar is enforced as an equation in two halves whose coefficients are the halves of
the eigenvalue and the order; each part is in its range.""", floor=30)
def scalars(rep, prog):
    def R(name, head, names, **k):
        cs = 1 if names.startswith("cs") else None
        return Rule(rep, prog, REL, name, head, OPS, names, cs=cs, extra=number, **k)
    fixed(R)
    variable(R)
    msm(R)
    glv(R)
