"""jf-poseidon2: the permutation, its constants, and the hash functions built from it."""
from math import gcd
from common import *
from say import *
from core import check

PO = "jf_poseidon2"
FIELDS = {  # modulus, bits
    "ark_bls12_381::FrConfig": (52435875175126190479447740508185965837690552500527637822603658699938581184513, 255),
    "ark_bn254::FrConfig": (21888242871839275222246405745257275088548364400416034343698204186575808495617, 254),
}
SIZES = (2, 3, 4, 8, 12, 16, 20, 24)
POPS = {"add_rcs", "s_box", "matmul_external", "matmul_internal", "permute_state", "permute_mut", "matmul", "sanity_check", "external_rc", "internal_rc", "internal_mat_diag_m_1", "from_hex",
        "zero_padding", "bit_padding", "evaluate"}


def grain(p, n, t, full, partial):
    """the published generator of Poseidon constants: an 80-bit LFSR seeded with the parameters, read through self-shrinking, by rejection"""
    s = [int(b) for v, w in ((1, 2), (0, 4), (n, 12), (t, 12), (full, 10), (partial, 10), ((1 << 30) - 1, 30)) for b in format(v, f"0{w}b")]

    def step():
        b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]
        s.pop(0)
        s.append(b)
        return b

    def bit():
        while not step():
            step()
        return step()
    for _ in range(160):
        step()
    while True:
        v = 0
        for _ in range(n):
            v = v << 1 | bit()
        if v < p:
            yield v


def constant(t):
    """the number, or the nested list of numbers, an initialiser stands for"""
    if t.op == "agg" and t.args[0] == "array":
        return [constant(x) for x in t.args[3:]]
    if t.op == "call" and nm(t) == "from_hex" and len(t.args) == 3 and t.args[2].op == "const" and re.match(r"^s:[0-9a-fA-F]{64}$", str(t.args[2].args[0])):
        return int(t.args[2].args[0][2:], 16)
    raise Unknown(pp(t, 3))


def given(rep, prog, f):
    """the constants a getter gives, written in the initialiser of a static"""
    an, q = rep.analyse(prog, f)
    xs = [an.simp(n.exit) for n in an.exits()]
    init = [prog.fns.get(x.args[0]) for t in xs for x in subterms(t) if x.op == "fn"]
    if len(xs) != 1 or len(init) != 1 or init[0] is None:
        raise Unknown(pp(xs[0], 3) if xs else "nothing")
    an, q = rep.analyse(prog, init[0], opaque=lambda g: g.name == "from_hex")
    return constant(an.simp(an.exits()[0].exit))


@check("Q01", [PO], """The Poseidon2 permutation: the external layer, then half of the external rounds, all internal rounds and the other half, every round with its constants, its power map and
its matrix, for every supported state size; parameters that do not fit are refused; the round constants of every instance are those of the published generator, recomputed by the analysis, the power is
invertible and the diagonal is the one the small internal matrices have.""", floor=30)
def permutation(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, PO, name, head, POPS, names, **k)
    r = R("add_rcs", None, "state rc")
    if r.ok:
        r.say.sized = ("T", r"0\.\.T|it|rc|state|enumerate\(it\)")
        r.after("round-constants", 1, "state{for i in T {[i] := it[i] + rc[i]}}", "every entry gets its constant")
    r = R("s_box", None, "val d")
    if r.ok:
        r.after("power", 1, ["either(-5 + d != 0 -> pow(val,[d]) | -5 + d == 0 -> val*val*val*val*val)", "pow(val,[d])"], "the power the parameters ask for")
    r = R("matmul", "MDSMat4", "x")
    if r.ok:
        r.after("matrix-4", 1, "x{[0] := 2*x[0] + 3*x[1] + x[2] + x[3]; [1] := x[0] + 2*x[1] + 3*x[2] + x[3]; [2] := x[0] + x[1] + 2*x[2] + 3*x[3]; [3] := 3*x[0] + x[1] + x[2] + 2*x[3]}",
                "the circulant matrix of 2, 3, 1, 1")
    f = rep.anchor(prog, PO, "matmul_external")
    g = rep.anchor(prog, PO, "matmul_internal")
    for t in SIZES:
        term = lambda d, j: f"{d[j]}*state[{j}]" if d[j] != 1 else f"state[{j}]"
        mat = lambda ds: "state{" + "; ".join(f"[{i}] := " + " + ".join(term([1 + (i == j) * ds[i] for j in range(t)], j) for j in range(t)) for i in range(t)) + "}"
        r = f and R("matmul_external", None, "state", subst={"T": str(t)})
        if r and r.ok:
            if t <= 3:
                r.after("external-matrix", 1, mat([1] * t), f"the sum is added to each of {t} entries")
            else:
                ch = "for {0} in it:chunksx(4) {{:chunksx(4)[{0}] := matmul'0(chunksx({1},4)[{0}])}}"
                sums = f"[{{sum(0..{t}:4: state{{{ch.format('l', chr(105) + 't' + chr(39))}}}[j + k]) for j in {'4' if t == 4 else '0..4'}}}]"
                r.say.sized = (str(t), rf"0\.\.{t}|it|enumerate\(it\)")
                r.after("external-matrix", 1, f"state{{{ch.format('i', 'it')}; for i in {t} {{[i] := {sums}[(i Rem 4)] + it[i]}}}}", f"the matrix on each of {t // 4} parts, then the sums of the parts")
        r = g and R("matmul_internal", None, "state diag", subst={"T": str(t)})
        if r and r.ok:
            if t <= 3:
                r.after("internal-matrix", 1, mat([1] * (t - 1) + [2]), f"ones, with 2 on the diagonal and 3 last, for {t} entries")
            else:
                r.say.sized = (str(t), rf"0\.\.{t}|it|diag|state|enumerate\(it\)")
                r.after("internal-matrix", 1, [f"state{{for i in {t} {{[i] := diag[i]*it[i] + sum(state)}}}}", f"state{{for i in {t} {{[i] := it[i]*diag[i] + sum(state)}}}}"],
                        f"ones plus the diagonal, for {t} entries")
    for t in (1, 5, 6, 25):
        r = f and R("matmul_external", None, "state", subst={"T": str(t)})
        if r and r.ok:
            rep.verdict(not r.oks, "external-matrix", r.w, f"a state of {t} entries, for which there is no matrix, is permuted")
    r = R("permute_state", None, "state rc d", pick="external::")
    if r.ok:
        r.say.sized = ("T", r"0\.\.T|it|rc|state|enumerate\(it\)")
        r.after("external-round", 1, ["matmul_external'0(state{add_rcs(rc); for i in T {[i] := s_box'0(it[i],d)}})"], "constants, powers, matrix")
    r = R("permute_state", None, "state rc d diag", pick="internal::")
    if r.ok:
        r.after("internal-round", 1, ["matmul_internal'0(state{[0] := s_box'0(rc + state[0],d)},diag)"], "constant and power on the first entry, then the matrix")
        many = [e for e in r.an.events if e.name.split("::")[-1] == "s_box" and any((e.node if isinstance(e.node, int) else e.node.id) in b for b, _ in r.an.loops().values())]
        rep.verdict(not many, "internal-round", r.w, "the power is applied in a loop, to more than the first entry")
    r = R("permute_mut", None, "input")
    if r.ok:
        half = "1/(2)*EXT_ROUNDS"
        w = [f"fold({last}: fold(internal_rc(): fold(external_rc()[:{half}]: matmul_external'0(input); permute_state'0(p0,external_rc(){x}[i],D)); permute_state'0(p0,internal_rc()[i],D,"
             f"internal_mat_diag_m_1())); permute_state'0(p0,{last}[i],D))" for x in ("", f"[:{half}]")
             for last in (f"external_rc()[:EXT_ROUNDS][{half}:]", f"external_rc()[{half}:]", f"external_rc()[{half}:EXT_ROUNDS]")]
        r.after("rounds", 1, w, "the rounds of the permutation")
        r.needs("parameters", "sanity_check()", "parameters that do not fit are used")
    r = R("permute", "Poseidon2", "input")
    if r.ok:
        r.value("permutation", "permute_mut'0(input)", "the permutation in place of a copy")
    r = R("sanity_check", None, "")
    if r.ok:
        for n in r.oks:
            v = r.an.simp(n.exit)
            if v is const(False) or v is const(0):
                continue
            got = set()
            for p in [r.q.accept(g) for g in r.an.guards([n]) if g.must] + [r.q.pred_of(r.q.norm(v), {1})]:
                try:
                    got.add(r.say.pred(p))
                except Unknown:
                    got.add(None)
            for w in ("contains([2, 3, 4, 8, 12, 16, 20, 24],T)", "contains([3, 5, 7, 11],D)", "-EXT_ROUNDS + len(external_rc()) == 0", "-INT_ROUNDS + len(internal_rc()) == 0", "(EXT_ROUNDS Rem 2) == 0"):
                rep.verdict(True if w in got else None if None in got else False, "parameters", r.w, f"parameters are taken without {w}; only {sorted(map(str, got))}")
    r = R("from_hex", None, "s")
    if r.ok:
        r.value("constants", "from_be_bytes_mod_order(from_hex(s))", "constants are written with the most significant byte first")
    impls = sorted({f.path.rsplit(">::", 1)[0] for f in prog.fns.values() if f.crate == PO and f.trait == "Poseidon2Params" and f.path.startswith("<")})
    rep.verdict(len(impls) >= 3, "constants", PO, f"{len(impls)} instances, there are three")
    for w in impls:
        w += ">"
        of = lambda n: [f for f in prog.fns.values() if f.crate == PO and f.path == f"{w}::{n}"][0]
        head, size = re.match(r"^<(.*) as Poseidon2Params<(.*), (\d+)>>$", w).group(2, 3)
        size, field = int(size), [k for k in FIELDS if k in head]
        try:
            num = {}
            for n in ("T", "D", "EXT_ROUNDS", "INT_ROUNDS"):
                an, q = rep.analyse(prog, of(n))
                num[n] = int(an.simp(an.exits()[0].exit).args[0])
            ext, inn, diag = (given(rep, prog, of(n)) for n in ("external_rc", "internal_rc", "internal_mat_diag_m_1"))
        except (Unknown, IndexError, ValueError, TypeError) as ex:
            rep.verdict(None, "constants", w, f"not understood: {ex}")
            continue
        if len(field) != 1:
            rep.verdict(None, "constants", w, "another field")
            continue
        p, bits = FIELDS[field[0]]
        rf, rp = num["EXT_ROUNDS"], num["INT_ROUNDS"]
        rep.verdict(num["T"] == size, "instance", w, f"state size {num['T']} for states of {size}")
        rep.verdict(gcd(num["D"], p - 1) == 1 and num["D"] in (3, 5, 7, 11), "instance", w, f"x^{num['D']} is not a permutation of the field")
        rep.verdict(len(ext) == rf and len(inn) == rp and rf % 2 == 0, "instance", w, f"{len(ext)} and {len(inn)} constants for {rf} and {rp} rounds")
        rep.verdict(rf >= 8 and rp >= 56, "instance", w, f"{rf} external and {rp} internal rounds, 8 and 56 are needed")
        src = grain(p, bits, size, rf, rp)
        want = [next(src) for _ in range(rf * size + rp)]
        first, last = [x for l in ext[:rf // 2] for x in l], [x for l in ext[rf // 2:] for x in l]
        for part, got, exp in (("first external", first, want[:len(first)]), ("internal", inn, want[len(first):len(first) + len(inn)]), ("last external", last, want[len(first) + len(inn):])):
            bad = [i for i, (x, y) in enumerate(zip(got, exp)) if x != y]
            rep.verdict(got == exp, "constants", w, f"the {part} round constants are not those of the generator, at {bad[:3]}")
        if size <= 3:
            rep.verdict(diag == [1] * (size - 1) + [2], "constants", w, f"the diagonal {diag} is not that of the internal matrix for {size} entries")


SQ = lambda x: f"Ok(squeeze_unchecked'1(absorb_unchecked'0(0,{x}),[{{0 x OUT}}]))"


@check("Q02", [PO], """Hashing with Poseidon2: inputs are padded (fixed length with zeros to that length, variable length with a one and zeros to a multiple of the rate), absorbed by a fresh sponge
and the whole output squeezed from it; inputs that are too long are refused; the sponge starts from zeros with the initial value in the first entry of the capacity and is permuted by the
permutation.""", floor=9)
def hashing(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, PO, name, head, POPS - {"zero_padding", "bit_padding"}, names, **k)
    upto = "next_multiple_of(len(input),IN)"
    r = R("evaluate", "FixedLenPoseidon2Hash", "input")
    if r.ok:
        r.value("fixed-length", [SQ(f"[*input, pad(0 to {n})]") for n in (upto, "IN")], "the input is padded with zeros to the length")
        r.does("fixed-length", "squeeze_unchecked", [tuple(f"absorb_unchecked'0(0,[*input, pad(0 to {n})]),[{{0 x OUT}}]" for n in (upto, "IN"))], "the whole output is squeezed")
        r.needs("fixed-length", "len(input) <= IN", "an input that is too long is hashed")
        r.only("fixed-length", ["len(input) <= IN"], "an input that is short enough is refused")
    r = R("evaluate", "VariableLenPoseidon2Hash", "input")
    if r.ok:
        r.value("variable-length", SQ("[*input, 1, pad(0 to next_multiple_of(1 + len(input),R))]"), "the input is padded with a one and zeros to a multiple of the rate")
        r.does("variable-length", "squeeze_unchecked", ["absorb_unchecked'0(0,[*input, 1, pad(0 to next_multiple_of(1 + len(input),R))]),[{0 x OUT}]"], "the whole output is squeezed")
        r.only("variable-length", [], "inputs are refused")
    PM = "Poseidon2Permutation"
    for n in ("N", "R"):
        r = R(n, PM, "")
        if r.ok:
            r.value("sponge-size", n, "the size of the state and the rate")
    r = R("as_ref", PM, "self")
    if r.ok:
        r.value("sponge-state", "self.state", "the whole state")
    r = R("as_mut", PM, "self")
    if r.ok:
        for n in r.oks:
            v = r.an.simp(n.exit)
            rep.verdict(None if v.op != "mref" else [x[-1] for x in v.args[2]] == ["state"], "sponge-state", r.w, f"the whole state: found {pp(v, 3)}")
    r = R("default", PM, "")
    if r.ok:
        r.value("sponge-start", "Poseidon2Permutation(state=[{0 x N}], _params=PhantomData())", "the state is zero")
    r = R("new", PM, "iv")
    if r.ok:
        r.value("sponge-start", "Poseidon2Permutation(state=[{0 x N}]{[R] := from_be_bytes_mod_order(iv)}, _params=PhantomData())", "the initial value is in the first entry of the capacity")
        for w in ("R < N", "0 < R", "200 <= MODULUS_BIT_SIZE*N + -MODULUS_BIT_SIZE*R"):
            r.needs("sponge-start", w, "a sponge with another rate or capacity is made")
    r = R("permute", PM, "self")
    if r.ok:
        r.after("sponge-permute", 1, "self{.state := permute_mut'0(self.state)}", "the permutation on the state")
    r = R("zeroize", PM, "self")
    if r.ok:
        r.after("sponge-clear", 1, "self{.state := zeroize'0(self.state)}", "the state is cleared")
