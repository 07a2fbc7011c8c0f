"""jf-relation: gadgets put together from other gadgets (sums, decompositions, ranges, comparisons, truncation)."""
from common import *
from say import *
from core import check

REL = "jf_relation"
OPS = set("""create_variable create_constant_variable create_boolean_variable create_public_variable lc lc_gate sum mul mul_gate add sub add_gate sub_gate mul_add mul_add_gate add_constant mul_constant
 add_constant_gate mul_constant_gate is_zero is_equal logic_neg logic_and logic_or logic_or_gate enforce_equal enforce_constant enforce_bool non_zero_gate conditional_select check_var_bound check_vars_bound
 check_point_var_bound unpack range_gate_internal range_gate_with_lookup enforce_in_range is_in_range decomposition_gate binary_decomposition_gate binary_decomposition_gate_with_canonical_check truncate_gate
 truncate is_lt_internal enforce_lt_internal is_gt_constant_internal msb_check_internal logic_and_all witness true_var false_var zero one support_lookup range_bit_len range_size insert_gate next_multiple
 add_range_check_variable decompose_le""".split())


def padded(xs):
    n = f"next_multiple(-1 + len({xs}),3)"
    return n, (lambda i: f"[*{xs}, pad(zero() to 1 + {n})][{i}]"), [f"1..{e}" for e in (f"1/(3) + 1/(3)*{n}", f"1/(3)*{n}", f"(1 + {n} Div 3)", f"({n} Div 3)")]


def sums(R):
    r = R("sum", "cs elems")
    if r.ok:
        out = "create_variable(sum(elems: witness(elems[i])))"
        n, e, loops = padded("elems")
        r.value("sum", f"Ok({out})", "the variable handed out holds the sum of all the elements")
        r.needs("sum", "len(elems) != 0", "an empty list is taken")
        r.needs("sum", "check_vars_bound(elems) is Ok", "variables of another circuit are taken")
        folds = [f"fold({l}: {e(0)}; lc([p0, {e('1 + 3*i')}, {e('2 + 3*i')}, {e('3 + 3*i')}],[{{1 x 4}}]))" for l in loops]
        r.does("sum-gates", "lc_gate", [tuple(f"[{f}, {e('-2 + ' + n)}, {e('-1 + ' + n)}, {e(n)}, {out}],[{{1 x 4}}]" for f in folds)], "the last three elements are added to what was added up and give the result")
    r = R("decomposition_gate", "cs xs a base")
    if r.ok:
        n, e, loops = padded("xs")
        co = "[base*base*base, base*base, base, 1]"
        folds = [f"fold({l}: {e(n)}; lc([p0, {e('-1 + -3*i + ' + n)}, {e('-2 + -3*i + ' + n)}, {e('-3 + -3*i + ' + n)}],{co}))" for l in loops]
        r.does("decomposition", "lc_gate", [tuple(f"[{f}, {e(2)}, {e(1)}, {e(0)}, a],{co}" for f in folds)], "the pieces, weighted by powers of the base with the first one lowest, give the value")
    r = R("binary_decomposition_gate", "cs bits a")
    if r.ok:
        r.does("binary", "decomposition_gate", [("[*bits],a,2", "bits,a,2")], "all the bits, base two")
    r = R("logic_and_all", "cs vars")
    if r.ok:
        f, g = "fold(vars[1:]: vars[0]; logic_and(p0,vars[1:][i]))", "fold(vars[1:]: vars[0]; logic_and(vars[1:][i],p0))"
        r.value("all", [f"Ok({f})", f"Ok({g})", f"logic_and({f},vars[1:][n])", f"logic_and(vars[1:][n],{g})"], "the conjunction of all of them",
                stops=["logic_and(fold(vars[1:]: vars[0]; logic_and(p0,vars[1:][i])),vars[1:][n]) is Err"])
        r.needs("all", "len(vars) != 0", "an empty list is taken")


def ranges(R):
    r = R("enforce_in_range", "cs a n")
    if r.ok:
        r.does("in-range", "range_gate_with_lookup", "a,n if support_lookup()", "circuits with lookups check with the table")
        r.does("in-range", "range_gate_internal", "a,n if not support_lookup()", "circuits without lookups check with bits")
    bits = "unpack(a,MODULUS_BIT_SIZE)"
    r = R("is_in_range", "cs a n")
    if r.ok:
        r.value("is-in-range", ["Ok(true_var())", f"is_zero(sum([*{bits}][n:]))", f"is_zero(sum({bits}[n:]))"], "the bits from the bound on are all zero")
        r.does("is-in-range", "sum", [tuple(f"{b}[n:] if n < {m}" for b in (f"[*{bits}]", bits) for m in (f"len([*{bits}])", f"len({bits})", "MODULUS_BIT_SIZE"))], "for every bound the value can exceed")
    r = R("unpack", "cs a n")
    if r.ok:
        r.value("unpack", "range_gate_internal(a,n)", "the bits of the value, as many as asked for")
    r = R("range_gate_internal", "cs a n")
    if r.ok:
        b = "to_bits_le(into_bigint(witness(a)))"
        vs = f"[{{create_boolean_variable({b}[i]) for i in {b}[:n]}}]"
        r.value("bits", [f"Ok({vs})", f"Ok([{{create_boolean_variable({b}[:n][i]) for i in {b}[:n]}}])"], "one boolean variable for each of the lowest bits, lowest first")
        r.rep.verdict(bool(r.calls("create_boolean_variable") or r.calls("enforce_bool")), "bits", r.w, "the bits are constrained to be boolean")
        r.needs("bits", "check_var_bound(a) is Ok", "a variable of another circuit is taken")
        r.needs("bits", "n != 0", "a range of no bits is taken")
        r.needs("bits", f"n <= len({b})", "a range of more bits than the value has is taken")
        r.does("bits", "binary_decomposition_gate_with_canonical_check", f"{vs},a if MODULUS_BIT_SIZE <= n", "bits that could stand for the value plus the modulus are checked to be canonical")
        r.does("bits", "binary_decomposition_gate", f"{vs},a if n < MODULUS_BIT_SIZE", "the bits give the value")
    r = R("binary_decomposition_gate_with_canonical_check", "cs bits a")
    if r.ok:
        x = "alt(bits[i],repeat(false_var())[i])"
        m = "to_bits_le(MODULUS)"
        f = f"fold([*bits, *repeat(false_var())]&{m}: false_var(); either(not {m}[i] -> logic_and(p0,logic_neg({x})) | {m}[i] -> logic_or(p0,logic_neg({x}))))"
        r.does("canonical", "binary_decomposition_gate", "bits,a", "the bits give the value")
        r.does("canonical", "enforce_constant", f"{f}.0,1", "the number the bits stand for is below the modulus")
    r = R("range_gate_with_lookup", "cs a n")
    if r.ok:
        top = "either((n Rem range_bit_len()) <= 0 -> 0 | 0 < (n Rem range_bit_len()) -> 1)"
        d = f"decompose_le(witness(a),1/(range_bit_len())*n + {top},range_bit_len())"
        vs = f"[{{create_variable({d}[i]) for i in {d}}}]"
        vj = f"[{{create_variable({d}[j]) for j in {d}}}]"
        r.does("lookup-range", "add_range_check_variable", [tuple(f"{x} for i in {y}" for x in (f"{vj}[:1/(range_bit_len())*n][i]", f"{vj}[i]", f"create_variable({d}[i])") for y in (f"{vs}[:1/(range_bit_len())*n]", f"{d}[:1/(range_bit_len())*n]", "0..1/(range_bit_len())*n"))], "every full piece is looked up")
        r.does("lookup-range", "range_gate_internal", [(f"{vs}[1/(range_bit_len())*n],(n Rem range_bit_len()) if 0 < (n Rem range_bit_len())",
                                                        f"{vs}[1/(range_bit_len())*n],(n Rem range_bit_len()) if (n Rem range_bit_len()) != 0")], "the piece that is left over is checked to its own length")
        r.does("lookup-range", "decomposition_gate", f"{vs},a,range_size()", "the pieces give the value")
        r.needs("lookup-range", "n != 0", "a range of no bits is taken")
        r.needs("lookup-range", "check_var_bound(a) is Ok", "a variable of another circuit is taken")


def comparisons(R):
    h = "MODULUS_MINUS_ONE_DIV_TWO"
    gt = lambda x: f"is_gt_constant_internal({x},{h})"
    const = "create_constant_variable(val)"
    for name, lt, neg in (("lt", "{0},{1}", 0), ("gt", "{1},{0}", 0), ("leq", "{1},{0}", 1), ("geq", "{0},{1}", 1)):
        for suffix, b in (("", "b"), ("_constant", const)):
            x = lt.format("a", b)
            r = R(f"is_{name}{suffix}", f"cs a {'val' if suffix else 'b'}")
            if r.ok:
                w = [f"logic_neg(is_lt_internal({x}))" if neg else f"is_lt_internal({x})"]
                if suffix and name == "gt":
                    w.append("is_gt_constant_internal(a,val)")
                r.value("is-" + name, w, f"one exactly when the first is {name} the second")
            r = R(f"enforce_{name}{suffix}", f"cs a {'val' if suffix else 'b'}")
            if r.ok:
                v = f"is_lt_internal({x})"
                r.value("enforce-" + name, [f"enforce_constant({v}{s},0)" for s in ("", ".0")] + [f"enforce_constant(logic_neg({v}){s},1)" for s in ("", ".0")] if neg else f"enforce_lt_internal({x})",
                        f"satisfied exactly when the first is {name} the second")
    high = "msb_check_internal(a,b)"
    both = (f"logic_and(logic_neg({gt('a')}),{gt('b')})", f"is_equal({gt('a')},{gt('b')})")
    r = R("msb_check_internal", "cs a b")
    if r.ok:
        eqs = [both[1], f"is_equal({gt('a')}.0,{gt('b')}.0)", f"is_equal({gt('b')},{gt('a')})"]
        r.value("halves", [f"Ok(({x}, {e}))" for x in (both[0], f"logic_and({gt('b')},logic_neg({gt('a')}))") for e in eqs], "only the second is in the upper half; both are in the same half")
    ors = [f"{high}.0,logic_and({x})" for x in (f"{high}.1,{gt('sub(a,b)')}", f"{gt('sub(a,b)')},{high}.1")]
    r = R("is_lt_internal", "cs a b")
    if r.ok:
        r.value("less", [f"logic_or({o})" for o in ors], "only the second is in the upper half, or both are in the same half and the difference is in the upper half")
    r = R("enforce_lt_internal", "cs a b")
    if r.ok:
        r.value("less", [f"logic_or_gate({o})" for o in ors], "only the second is in the upper half, or both are in the same half and the difference is in the upper half")
    r = R("is_gt_constant_internal", "cs a c")
    if r.ok:
        bits, cs = "unpack(a,MODULUS_BIT_SIZE)", "to_bits_le(into_bigint(c))"
        it = f"skipwhile(zip([*{cs}, *repeat(False)][:len({bits})],{bits}),alt({cs}[n],repeat(False)[n]))"
        st = lambda l, p: (f"logic_and(next'0({it})[{l}].1,{p})", f"logic_or(next'0({it})[{l}].1,{p})")
        a, o = st("i", "p0")
        f = f"fold(next'0({it}): next({it}).1; either(next'0({it})[i].0 -> {a} | not next'0({it})[i].0 -> {o}))"
        ea, eo = st("n", f)
        r.value("above-constant", ["Ok(BoolVar(zero()))", f"Ok({f})", ea, eo], "the bits from the first zero of the constant on: or for a zero, and for a one; never above a constant of ones",
                stops=[f"either(next'0({it})[n].0 -> {ea} | not next'0({it})[n].0 -> {eo}) is Err"])


def truncation(R):
    r = R("truncate", "cs a n")
    if r.ok:
        v = "create_variable((witness(a) Rem pow(2,[n])))"
        r.value("truncate", f"Ok({v})", "the variable handed out holds the value modulo the power of two")
        r.does("truncate", "truncate_gate", f"a,{v},n", "it is constrained to be")
    r = R("truncate_gate", "cs a b n")
    if r.ok:
        up = "((MODULUS_BIT_SIZE Sub n) Rem range_bit_len())"
        lo = "(n Rem range_bit_len())"
        nb, na = f"-{lo} + n", f"-{up} + MODULUS_BIT_SIZE + -n"
        b0 = f"create_variable((witness(b) Rem pow(2,[{nb}])))"
        b1 = f"create_variable(1/(pow(2,[{nb}]))*witness(b))"
        a0 = f"create_variable((((witness(a) Sub witness(b)) Div pow(2,[n])) Rem pow(2,[{na}])))"
        a1 = f"create_variable(1/(pow(2,[{na}]))*1/(pow(2,[n]))*witness(a) + -1/(pow(2,[{na}]))*1/(pow(2,[n]))*witness(b))"
        r.does("truncation", "lc_gate", [f"[{b0}, {b1}, zero(), zero(), b],[1, pow(2,[{nb}]), 0, 0]",
                                         f"[b, {a0}, {a1}, zero(), a],[1, pow(2,[n]), pow(2,[{na}])*pow(2,[n]), 0]"],
               "the result is put together from its looked-up and left-over part; the value from the result and the two parts of the quotient")
        r.does("truncation", "range_gate_with_lookup", [f"{b0},{nb} if {nb} != 0", f"{a0},{na} if {up} + -MODULUS_BIT_SIZE + n != 0"], "the looked-up parts are in their ranges")
        r.does("truncation", "enforce_in_range", [f"{b1},{lo} if {lo} != 0", f"{a1},{up} if {up} != 0"], "the left-over parts are in their ranges")
        r.does("truncation", "enforce_constant", [f"{b0},0 if {nb} == 0", f"{b1},0 if {lo} == 0", f"{a0},0 if {up} + -MODULUS_BIT_SIZE + n == 0", f"{a1},0 if {up} == 0"], "parts without bits are zero")
        for c in ("support_lookup()", "check_var_bound(a) is Ok", "check_var_bound(b) is Ok", "witness(b) < pow(2,[n])", "n < MODULUS_BIT_SIZE"):
            r.needs("truncation", c, "a truncation that cannot be stated is taken")


@check("C04", [REL], """Gadgets put together from other gadgets, each read as the composition of the gadgets it calls (values, gates inserted, and the conditions under which they are). Decided: sums and decompositions
add up every element once with the right weight (chain of four-wire linear combinations over the padded list); conjunctions take every element; a decomposition of as many bits as the modulus has is constrained to
be canonical, with bits and modulus compared bit by bit from the lowest; range checks with lookups look up every full piece, check the left-over piece to its own length and recombine; membership of a range is that
the bits above are zero; the sixteen comparisons reduce to one strict comparison with the operands in the right order, which is decided by the halves of the field the operands and their difference lie in;
comparison with a constant goes through its bits; truncation recombines value, result and quotient with every part in its range.""", floor=28)
def composite(rep, prog):
    def R(name, names, **k):
        return Rule(rep, prog, REL, name, "PlonkCircuit", OPS, names, cs=1, **k)
    sums(R)
    ranges(R)
    comparisons(R)
    truncation(R)
