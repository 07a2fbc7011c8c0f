"""jf-rescue: the permutation and its constants, and what is built from it."""
import re
from itertools import combinations
from common import *
from say import *
from core import check

RE = "jf_rescue"
MOD = {  # the fields with parameters that are meant to be used
    "ark_bls12_377::FqConfig": 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177,
    "ark_bls12_377::FrConfig": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
    "ark_bls12_381::FrConfig": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "ark_bn254::FqConfig": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "ark_bn254::FrConfig": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
}
CON = ("A", "A_INV", "MDS_LE", "INIT_VEC_LE", "KEY_INJECTION_LE", "PERMUTATION_ROUND_KEYS")
OPS = {"linear", "non_linear", "pow", "add_assign", "add", "add_assign_elems", "dot_product", "mul_vec", "from_elems_le_bytes", "key_schedule", "prp_with_round_keys", "eval", "absorb",
       "squeeze_native_field_elements", "sponge_no_padding", "sponge_with_zero_padding", "sponge_with_bit_padding", "evaluate", "commit", "full_state_keyed_sponge_no_padding",
       "full_state_keyed_sponge_with_zero_padding", "pad_with_zeros"}

row = lambda c: "from_elems_le_bytes(" + ",".join(f"{c}[{i}]" for i in range(4)) + ")"
PRP_ = f"PRP(mds=RescueMatrix(matrix=[{', '.join(row(f'MDS_LE[{i}]') for i in range(4))}]), init_vec={row('INIT_VEC_LE')}, key_injection=[{{{row('KEY_INJECTION_LE[i]')} for i in KEY_INJECTION_LE}}])"
KEYS = f"[{{{row('PERMUTATION_ROUND_KEYS[i]')} for i in PERMUTATION_ROUND_KEYS}}]"
FOUR = ("4", r"0\.\.4|enumerate\(it\)\[:4\]|enumerate\(it\.(0|vec|state)\)\[:4\]|it(\.0|\.vec|\.state)?|\w+(\.matrix\[\w\])?\.(0|vec|state|matrix)|linear'0\(.*\)\.vec|non_linear'0\(.*\)\.vec|key\.vec")
PERM = f"Permutation(rescue_prp={PRP_}, round_keys={KEYS})"


def squeezed(start, n, rate, elems, perm):
    """elements taken from a state a rate at a time with a permutation in between: (the elements, the state afterwards, where the loop ends)"""
    out, last, stop = [], [], []
    for take, left, more in ((f"min({rate},{{0}})", f"-min({rate},{{0}}) + {{0}}", f"-min({rate},{{0}}) + {{0}} != 0"), (f"{rate}", f"-{rate} + {{0}}", f"{rate} < {{0}}")):
        c = f"w1: {n} -> {left.format('w1')}"
        st = f"while(w0; w0: {start} -> {perm('w0')}; {c}; {more.format('w1')})"
        rem = f"while(w0; w0: {n} -> {left.format('w0')}; {more.format('w0')})"
        rest = take.format(rem) if "{0}" in take else rem
        out.append(f"[*while(w0; w0: [] -> [*w0, *w2{elems}[:{take.format('w1')}]]; {c}; w2: {start} -> {perm('w2')}; {more.format('w1')}), *{st}{elems}[:{rest}]]")
        last.append(st)
        stop.append(left.format(rem) + " == 0")
    return out, last, stop


def number(t):
    """the number, or the nested list of numbers, a constant stands for; byte strings are little-endian"""
    if t.op == "agg":
        return [number(x) for x in t.args[3:]]
    if isinstance(t.args[0], str) and t.args[0].startswith("b:"):
        return int.from_bytes(bytes(int(x) for x in t.args[0][2:].split(",")), "little")
    return int(t.args[0])


def det(m):
    return m[0][0] if len(m) == 1 else sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


@check("R01", [RE], """The Rescue permutation: exponents alternate between the inverse power and the power, every round multiplies by the MDS matrix and adds its key; the key schedule runs the
same rounds; the constants of each field satisfy what defines them: the exponents are inverse to each other, every minor of the matrix is non-zero, the round keys are the key schedule of the zero
key.""", floor=20)
def permutation(rep, prog):
    def R(name, head, names, **k):
        r = Rule(rep, prog, RE, name, head, OPS, names, **k)
        if r.ok:
            r.say.sized, r.canon = FOUR, whole("4")
        return r
    V = "RescueVector"
    r = R("pow", V, "self exp")
    if r.ok:
        r.after("vector-pow", 1, "self{for i in 4 {.vec[i] := pow(it.vec[i],exp)}}", "every entry is raised to the power")
    r = R("add_assign", V, "self vector")
    if r.ok:
        r.after("vector-add", 1, "self{for i in 4 {.vec[i] := it.vec[i] + vector.vec[i]}}", "entry by entry")
    r = R("add", V, "self vector")
    if r.ok:
        r.value("vector-add", "add_assign'0(self,vector)", "the sum")
        r.keeps("vector-add", 1, "adding changes the summand")
    r = R("add_assign_elems", V, "self elems")
    if r.ok:
        r.after("vector-absorb", 1, "self{for i in 4&elems {.vec[i] := elems[i] + it.vec[i]}}", "as many entries as there are elements")
    r = R("dot_product", V, "self vector")
    if r.ok:
        r.value("product", "sum(4: self.vec[i]*vector.vec[i])", "the inner product")
    r = R("mul_vec", "RescueMatrix", "self vector")
    if r.ok:
        r.value("product", "RescueVector(vec=[{0 x 4}]{for i in 4 {[i] := dot_product(self.matrix[i],vector)}})", "every row with the vector")
    r = R("linear", V, "self matrix vector")
    if r.ok:
        r.after("linear", 1, "add_assign'0(mul_vec(matrix,self),vector)", "the matrix times the vector plus the key")
    r = R("non_linear", V, "self matrix vector")
    if r.ok:
        r.after("non-linear", 1, ["add_assign'0(mul_vec(matrix,pow'0(self,[A])),vector)", "linear'0(pow'0(self,[A]),matrix,vector)"], "the powers times the matrix plus the key")
    r = R("zero", V, "")
    if r.ok:
        r.value("zero", "RescueVector(vec=[{0 x 4}])", "all entries are zero")
    r = R("elems", V, "self")
    if r.ok:
        r.value("elems", "self.vec", "all entries in order")
    r = R("from_elems_le_bytes", V, "e0 e1 e2 e3")
    if r.ok:
        r.value("bytes", f"RescueVector(vec=[{', '.join(f'from_le_bytes_mod_order(e{i})' for i in range(4))}])", "the four elements in order")
    r = R("from", V, "xs", pick="&[F]")
    if r.ok:
        r.value("from-list", "RescueVector(vec=[xs[0], xs[1], xs[2], xs[3]])", "the elements in order")
        r.needs("from-list", "-4 + len(xs) == 0", "a list of another length is taken")
    r = R("from", V, "xs", pick="&[F; STATE_SIZE]")
    if r.ok:
        r.value("from-list", "RescueVector(vec=xs)", "the elements in order")
    r = R("vec", "RescueMatrix", "self i")
    if r.ok:
        r.value("row", "self.matrix[i]", "the row asked for")
    r = R("len", "RescueMatrix", "self")
    if r.ok:
        r.value("row", "len(self.matrix)", "the number of rows")
    r = R("from", "RescueMatrix", "rows")
    if r.ok:
        r.value("row", "RescueMatrix(matrix=rows)", "the rows in order")
    r = R("default", "PRP", "")
    if r.ok:
        r.value("constants", PRP_, "every constant in its place")
    r = R("from", "Permutation", "rescue")
    if r.ok:
        r.value("constants", f"Permutation(rescue_prp=rescue, round_keys={KEYS})", "every round key in its place")
    r = R("default", "Permutation", "")
    if r.ok:
        r.value("constants", PERM, "every constant in its place")
    r = R("eval", "Permutation", "self input")
    if r.ok:
        r.value("permutation", "prp_with_round_keys(self.rescue_prp,self.round_keys,input)", "the cipher with the round keys of the permutation")
    for h, f, x in (("Permutation", "round_keys_ref", "round_keys"), ("Permutation", "mds_matrix_ref", "rescue_prp.mds"), ("PRP", "mds_matrix_ref", "mds"), ("PRP", "init_vec_ref", "init_vec"),
                    ("PRP", "key_injection_vec_ref", "key_injection")):
        r = R(f, h, "self")
        if r.ok:
            r.value("constants-given", "self." + x, "the constants that are used")
    r = R("prp", "PRP", "self key input")
    if r.ok:
        r.value("cipher", "prp_with_round_keys(self,key_schedule(self,key),input)", "the cipher with the schedule of the key")
    ex = "either((i Rem 2) != 0 -> [A] | (i Rem 2) == 0 -> A_INV)"
    po = lambda x: [f"pow'0({x},{ex})", f"either((i Rem 2) != 0 -> pow'0({x},[A]) | (i Rem 2) == 0 -> pow'0({x},A_INV))"]
    r = R("prp_with_round_keys", "PRP", "self keys input")
    if r.ok:
        r.value("rounds", [f"fold({d}: add(input,keys[0]); linear'0({x},self.mds,{k}))" for x in po("p0") for d, k in (("keys[1:]", "keys[1:][i]"), ("0..24", "keys[1 + i]"))], "the rounds of the permutation")
        r.needs("rounds", "-25 + len(keys) == 0", "another number of round keys is taken")
    r = R("key_schedule", "PRP", "self key")
    if r.ok:
        run = [f"runfold(0..24: add(key,self.init_vec); linear'0({x},self.mds,self.key_injection[i]))" for x in po("p0")]
        r.value("schedule", [f"[add(key,self.init_vec), {{linear'0({x},self.mds,self.key_injection[i]) for i in 0..24}}]" for y in run for x in po(y)], "the rounds of the key schedule")
    constants(rep, prog)


def constants(rep, prog):
    seen = set()
    for f in sorted((f for f in prog.fns.values() if f.crate == RE and f.name == "A" and f.trait and f.trait.endswith("RescueParameter")), key=lambda f: f.id):
        field = next((k for k in MOD if k in f.path), None)
        if field is None:
            continue
        w, p, v = f"parameters over {field.replace('Config', '')}", MOD[field], {}
        for n in CON:
            g = prog.fns.get(f.id[:-1] + n)
            if g is None:
                rep.verdict(False, "constant", w, f"{n} is missing")
                break
            an, _ = rep.analyse(prog, g)
            try:
                v[n] = number(an.simp(an.exits()[0].exit))
            except Exception:
                rep.verdict(None, "constant", w, f"{n} is not written out")
                break
        if len(v) < len(CON):
            seen.add(field)
            continue
        seen.add(field)
        a, ai = v["A"], sum(x << 64 * i for i, x in enumerate(v["A_INV"]))
        m, iv, inj, rk = v["MDS_LE"], v["INIT_VEC_LE"], v["KEY_INJECTION_LE"], v["PERMUTATION_ROUND_KEYS"]
        rep.verdict(a * ai % (p - 1) == 1, "constant-exponents", w, "raising to the power and to the inverse power gives the element back")
        rep.verdict(len(m) == 4 and all(det([[m[i][j] for j in cs] for i in rs]) % p for k in range(1, 5) for rs in combinations(range(4), k) for cs in combinations(range(4), k)), "constant-matrix", w,
                    "every minor of the matrix is non-zero")
        rep.verdict(all(x < p for r in rk + inj + m + [iv] for x in r), "constant-range", w, "every constant is an element of the field")
        s, bad = list(iv), [0] if list(iv) != rk[0] else []
        for i in range(min(len(inj), len(rk) - 1)):
            s = [pow(x, a if i % 2 else ai, p) for x in rk[i]]
            if [(sum(x * y for x, y in zip(m[r], s)) + inj[i][r]) % p for r in range(4)] != rk[i + 1]:
                bad.append(i + 1)
        rep.verdict(not bad and len(rk) == 25 and len(inj) == 24, "constant-keys", w, f"the round keys are the schedule of the zero key, not so for {bad}")
    rep.verdict(seen == set(MOD), "constant", "parameters", f"no parameters for {sorted(set(MOD) - seen)}")


@check("R02", [RE], """Rescue sponge, hash, commitment and PRF: blocks of the rate are added and permuted in order, output is taken a rate at a time with a permutation in between; the padding and
the length checks of each mode; the commitment hashes the blinding factor and the whole message; the PRF places its key in the capacity.""", floor=12)
def modes(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, RE, name, head, OPS, names, **k)
    S = "RescueSponge"
    r = R("from_state", S, "state permutation")
    if r.ok:
        r.value("sponge-start", "RescueSponge(state=state, permutation=permutation)", "the state and permutation given")
    r = R("into_state", S, "self")
    if r.ok:
        r.value("sponge-start", "self.state", "the state reached")
    r = R("new", S, "permutation")
    if r.ok:
        r.value("sponge-start", ["RescueSponge(state=RescueVector(vec=0), permutation=permutation)", "RescueSponge(state=RescueVector(vec=[{0 x 4}]), permutation=permutation)"], "the zero state")
    r = R("absorb", S, "self input")
    if r.ok:
        x = "chunks(to_sponge_field_elements_as_vec(input),RATE)"
        r.after("absorb", 1, [f"self{{for i in {x} {{.state := eval({p}.permutation,add_assign_elems'0(it.state,{x}[i]))}}}}" for p in ("self", "it")], "every block is added and permuted")
    r = R("fork", S, "self domain")
    if r.ok:
        r.value("fork", "absorb'0(self,[*to_sponge_bytes_as_vec(len(domain)), *domain])", "the length and the bytes of the domain are absorbed")
        r.keeps("fork", 1, "forking changes the sponge")
    r = R("squeeze_native_field_elements", S, "self n")
    if r.ok:
        out, last, _ = squeezed("self", "n", "RATE", ".state.vec", lambda w: f"{w}{{.state := eval({w}.permutation,{w}.state)}}")
        r.value("squeeze", out, "a rate at a time, with a permutation in between")
        r.after("squeeze", 1, last, "the state after the last elements were taken")
    H = "RescueCRHF"
    r = R("sponge_with_bit_padding", H, "input n")
    if r.ok:
        r.value("bit-padding", "sponge_no_padding(pad_with_zeros'0([*input, 1],3),n)", "a one, then zeros up to a multiple of the rate")
    r = R("sponge_with_zero_padding", H, "input n")
    if r.ok:
        r.value("zero-padding", "sponge_no_padding(pad_with_zeros'0(input,3),n)", "zeros up to a multiple of the rate")
    r = R("sponge_no_padding", H, "input n")
    if r.ok:
        r.value("hash", f"Ok(squeeze_native_field_elements(absorb'0(RescueSponge(state=RescueVector(vec=[{{0 x 4}}]), permutation={PERM}),input),n))", "absorb all, then squeeze, from the zero state")
        r.needs("hash-length", "(len(input) Rem 3) == 0", "an input of another length is taken")
        r.only("hash-accepts", ["(len(input) Rem 3) == 0"], "another input is refused")
    out = "copy_from_slice'0([{{0 x OUTPUT_LEN}}],{})"
    r = R("evaluate", "FixedLengthRescueCRHF", "input")
    if r.ok:
        r.casewise("fixed-hash", {f"Ok({out.format('sponge_no_padding(input,OUTPUT_LEN)')})": ["(INPUT_LEN Rem 3) == 0", "not (INPUT_LEN Rem 3)"],
                                  f"Ok({out.format('sponge_with_zero_padding(input,OUTPUT_LEN)')})": ["(INPUT_LEN Rem 3) != 0", "(INPUT_LEN Rem 3)"]}, "padded only when the length is not a multiple")
    r = R("evaluate", "VariableLengthRescueCRHF", "input")
    if r.ok:
        r.value("variable-hash", f"Ok({out.format('sponge_with_bit_padding(input,OUTPUT_LEN)')})", "always with the one bit")
        r.only("variable-hash", ["-OUTPUT_LEN + len(sponge_with_bit_padding(input,OUTPUT_LEN)) == 0"], "an input is refused")
    C = "FixedLengthRescueCommitment"
    r = R("commit", C, "input r")
    if r.ok:
        z = "[{0 x INPUT_LEN_PLUS_ONE}]{[0] := r"
        msg = [f"{z}; [1:INPUT_LEN_PLUS_ONE] := copy_from_slice'0({z}}}[1:INPUT_LEN_PLUS_ONE],{i})}}" for i in ("input[:INPUT_LEN]", "input")]
        r.value("commit", [f"Ok(evaluate({m})[0])" for m in msg] + ["Ok(evaluate([r, *input])[0])"], "the hash of the blinding factor and the message")
        r.needs("commit-blinding", "r is Some", "a commitment without a blinding factor")
    r = R("verify", C, "input r comm")
    if r.ok:
        c = "commit(input,r)"
        same, other = [f"{' + '.join(sorted(['-' + c, 'comm']))} == 0", f"-{c} + comm == 0", f"-comm + {c} == 0"], [f"-{c} + comm != 0", f"-comm + {c} != 0"]
        r.casewise("verify", {"Ok(Ok(()))": same, "Ok(Err(()))": other}, "accepted exactly when the commitment is the one computed")
    for h, want in (("RescueCRHF", "CRHF_RATE"), ("RescuePRFCore", "STATE_SIZE")):
        a = next((a for (c, p), a in prog.adtc.items() if c == RE and p.split("::")[-1] == h), None)
        ts = [str(f[1]) for v in (a or {}).get("variants", []) for f in v["fields"]] if isinstance(a, dict) else None
        rep.verdict(None if not ts else any(re.fullmatch(r".*RescueSponge<.*, (%s|%d)>" % (want, {"CRHF_RATE": 3, "STATE_SIZE": 4}[want]), t) for t in ts), "rate", h, f"the blocks are of another length: {ts}")
    K = "RescuePRFCore"
    r = R("full_state_keyed_sponge_with_zero_padding", K, "key input n")
    if r.ok:
        r.value("prf-padding", "full_state_keyed_sponge_no_padding(key,pad_with_zeros'0(input,4),n)", "zeros up to a multiple of the state size")
    r = R("full_state_keyed_sponge_no_padding", K, "key input n")
    if r.ok:
        r.value("prf", f"Ok(squeeze_native_field_elements(absorb'0(RescueSponge(state=RescueVector(vec=[{{0 x 4}}]{{[3] := key}}), permutation={PERM}),input),n))", "the key is in the capacity of the first state")
        r.needs("prf-length", "(len(input) Rem 4) == 0", "an input of another length is taken")
        r.only("prf-accepts", ["(len(input) Rem 4) == 0"], "another input is refused")
    r = R("evaluate", "RescuePRF", "seed input")
    if r.ok:
        x = "full_state_keyed_sponge_with_zero_padding(seed,input,OUTPUT_LEN)"
        r.value("prf-value", [f"Ok({o}_from_slice'0([{{0 x OUTPUT_LEN}}],{x}))" for o in ("clone", "copy")], "all outputs of the keyed sponge")


GAD = OPS | {"rescue_permutation", "prp", "rescue_sponge_no_padding", "rescue_sponge_with_padding", "rescue_full_state_keyed_sponge_no_padding", "rescue_full_state_keyed_sponge_with_zero_padding",
             "create_rescue_state_variable", "check_var_bound_rescue_state", "add_constant_state", "add_state", "pow_alpha_inv_state", "affine_transform", "non_linear_transform", "pow_alpha_inv",
             "permutation_with_const_round_keys", "add_constant", "insert_gate", "create_variable", "witness", "check_var_bound", "power_11_gate", "zero", "one", "compute_len_to_next_multiple",
             "mod_add_constant", "mod_add", "non_native_power_11_gate", "non_native_linear_gen", "new_from_field_element", "enforce_equal", "field_switching", "pad_with", "new", "range_bit_len"}
MDS = PRP_[8:PRP_.index(", init_vec")]


def gadget(rep, prog, mod):
    def R(name, names, head="PlonkCircuit", **k):
        r = Rule(rep, prog, RE, name, head, GAD, names, pick=f"::{mod}::", cs=1, **k)
        if r.ok:
            r.say.sized, r.canon = FOUR, whole("4")
        return r
    return R


def frame(R, native):
    """what the two gadgets have in common: the order of the rounds, the blocks, the padding; st: a state of four variables, z: a zero"""
    if native:
        st, S, z, fst = (lambda xs: f"RescueStateVar([{', '.join(xs)}])"), ".0", "zero()", (lambda xs: st(xs))
    else:
        p = "Some(data_vars[0].two_power_m)"
        z = f"zero(data_vars[0].m,{p})"
        m = f"new(from_le_bytes_mod_order(to_bytes_le(MODULUS)),data_vars[0].m,{p})"
        st, S = (lambda xs: f"RescueNonNativeStateVar(state=[{', '.join(xs)}], modulus={m})"), ".state"
    r = R("rescue_permutation", "cs input_var")
    if r.ok:
        r.value("permutation", f"permutation_with_const_round_keys(input_var,{MDS},[{{RescueVector(vec={row('PERMUTATION_ROUND_KEYS[i]')}.vec) for i in PERMUTATION_ROUND_KEYS}}])",
                "the matrix and round keys of the permutation")
    r = R("prp", "cs key_var input_var")
    if r.ok:
        r.value("cipher", f"prp_with_round_keys(input_var,{MDS},key_schedule({MDS},key_var,{PRP_}))", "the matrix and key schedule of the cipher")
    blk = lambda x, n: [f"{x}[{i}]" for i in range(n)]
    r = R("rescue_sponge_no_padding", "cs data_vars num_output")
    if r.ok:
        x = "chunksx(data_vars[3:],3)"
        fold = f"fold({x}: rescue_permutation({st(blk('data_vars', 3) + [z])}); rescue_permutation(add_state(p0,{st(blk(x + '[i]', 3) + [z])})))"
        out, _, stop = squeezed(fold, "num_output", "3", S, lambda w: f"rescue_permutation({w})")
        r.value("sponge", [f"Ok({o})" for o in out], "every block is added and permuted, then a rate at a time with a permutation in between", stops=stop)
        r.needs("sponge-length", "len(data_vars) != 0", "an empty list is taken")
        r.needs("sponge-length", "(len(data_vars) Rem 3) == 0", "a list of another length is taken")
    r = R("rescue_sponge_with_padding", "cs data_vars num_output")
    if r.ok:
        o = "one()" if native else f"one(data_vars[0].m,{p})"
        r.value("bit-padding", [f"rescue_sponge_no_padding([*data_vars, {o}, {y}],num_output)" for y in (f"{{{z} x -1 + compute_len_to_next_multiple(1 + len(data_vars),3) + -len(data_vars)}}", f"pad({z} to compute_len_to_next_multiple(1 + len(data_vars),3))")], "a one, then zeros up to a multiple of the rate")
        r.needs("bit-padding", "len(data_vars) != 0", "an empty list is taken")
    r = R("rescue_full_state_keyed_sponge_with_zero_padding", "cs key data_vars")
    if r.ok:
        r.value("prf-padding", [f"rescue_full_state_keyed_sponge_no_padding(key,[*data_vars, {y}])" for y in (f"{{{z} x compute_len_to_next_multiple(len(data_vars),4) + -len(data_vars)}}", f"pad({z} to compute_len_to_next_multiple(len(data_vars),4))")], "zeros up to a multiple of the state size")
        r.needs("prf-padding", "len(data_vars) != 0", "an empty list is taken")
    r = R("rescue_full_state_keyed_sponge_no_padding", "cs key data_vars")
    if r.ok:
        x = "chunksx(data_vars,4)"
        b = st(blk(x + "[i]", 4))
        r.value("prf", f"Ok(fold({x}: {st([z] * 3 + ['key'])}; rescue_permutation(add_state(p0,{b}))){S}[0])", "the key is in the capacity of the first state, every block is added and permuted")
        r.needs("prf-length", "(len(data_vars) Rem 4) == 0", "a list of another length is taken")
    r = R("key_schedule", "cs mds key_var prp")
    inj = "prp.key_injection[i]"
    rnd = lambda x, c: f"either((i Rem 2) != 0 -> non_linear_transform({x},mds,{c}) | (i Rem 2) == 0 -> affine_transform(pow_alpha_inv_state({x}),mds,{c}))"
    if r.ok:
        first = "add_constant_state(key_var,prp.init_vec)"
        run = f"runfold(prp.key_injection: {first}; {rnd('p0', inj)})"
        wrap = [lambda x: x, lambda x: f"RescueStateVar({x}.0)"]
        r.value("schedule", [f"Ok([{w(first)}, {{{w(rnd(run, inj))} for i in prp.key_injection}}])" for w in wrap], "the rounds of the key schedule")
    r = R("prp_with_round_keys", "cs input_var mds keys")
    zero = "RescueVector(vec=[{0 x 4}])"
    KS = (("keys[1:]", "keys[1:][i]"), ("0..24", "keys[1 + i]"))
    if r.ok:
        r.value("rounds", [f"Ok(fold({d}: add_state(input_var,keys[0]); add_state({rnd('p0', zero)},{k})))" for d, k in KS], "the rounds of the cipher")
        r.needs("rounds", "-25 + len(keys) == 0", "another number of round keys is taken")
    r = R("permutation_with_const_round_keys", "cs input_var mds keys")
    if r.ok:
        r.value("rounds", [f"Ok(fold({d}: add_constant_state(input_var,keys[0]); {rnd('p0', k)}))" for d, k in KS], "the rounds of the permutation")
        r.needs("rounds", "-25 + len(keys) == 0", "another number of round keys is taken")


@check("R03", [RE], """Rescue in a circuit over its own field: the rounds, key schedule, sponge modes, padding and length checks of the native construction, gate by gate: every new variable holds the
native value of the step and is tied to the step's inputs by the gate for it, whose selectors are the matrix row and the constant; commitment and PRF gadgets.""", floor=20)
def native_gadget(rep, prog):
    R = gadget(rep, prog, "native")
    frame(R, True)
    r = R("create_rescue_state_variable", "cs state")
    if r.ok:
        r.value("state", "Ok(RescueStateVar([{create_variable(state.vec[i]) for i in 4}]))", "every variable holds its entry")
    r = R("check_var_bound_rescue_state", "cs s")
    if r.ok:
        r.does("state-bound", "check_var_bound", "s.0[i] for i in 4", "every variable is checked")
    r = R("add_constant_state", "cs x c")
    if r.ok:
        r.value("add-constant", "Ok(RescueStateVar([{add_constant(x.0[i],c.vec[i]) for i in 4}]))", "entry by entry")
    r = R("add_state", "cs x y")
    if r.ok:
        r.value("add", ["Ok(RescueStateVar([{add(x.0[i],y.0[i]) for i in 4}]))", "Ok(RescueStateVar([{add(y.0[i],x.0[i]) for i in 4}]))"], "entry by entry")
    r = R("pow_alpha_inv_state", "cs x")
    if r.ok:
        r.value("root", "Ok(RescueStateVar([{pow_alpha_inv(x.0[i]) for i in 4}]))", "entry by entry")
    wit = "RescueVector(vec=[{witness(x.0[%s]) for %s in 4}])"
    out = lambda f, i, j: f"create_variable({f}'0({wit % (j, j)},m,c).vec[{i}])"
    r = R("affine_transform", "cs x m c")
    if r.ok:
        r.value("affine", f"Ok(RescueStateVar([{{{out('linear', 'i', 'j')} for i in 4}}]))", "the variables hold the matrix times the state plus the constant")
        r.does("affine-gate", "insert_gate", f"[x.0[0], x.0[1], x.0[2], x.0[3], {out('linear', 'i', 'j')}],RescueAffineGate(matrix_vector=m.matrix[i], constant=c.vec[i]) for i in 4", "a gate for every row")
    five, eleven = "-5 + A == 0", "-11 + A == 0 & -5 + A != 0"
    r = R("non_linear_transform", "cs x m c")
    if r.ok:
        p = "create_variable(pow(witness(x.0[i]),[11]))"
        r.value("powers", [f"Ok(RescueStateVar([{{{out('non_linear', 'i', 'j')} for i in 4}}]))", f"affine_transform(RescueStateVar([{{{p} for i in 4}}]),m,c)"], "the variables hold the matrix times the powers plus the constant")
        r.does("powers-gate", "insert_gate", f"[x.0[0], x.0[1], x.0[2], x.0[3], {out('non_linear', 'i', 'j')}],Power5NonLinearGate(matrix_vector=m.matrix[i], constant=c.vec[i]) for i in 4 if {five}", "a gate for every row")
        r.does("powers-gate", "power_11_gate", f"x.0[i],{p} for i in 4 if {eleven}", "a gate for every power")
    r = R("pow_alpha_inv", "cs x")
    if r.ok:
        v = "create_variable(pow(witness(x),A_INV))"
        r.value("root-variable", f"Ok({v})", "the variable holds the root")
        r.does("root-gate", "insert_gate", f"[{v}, 0, 0, 0, x],FifthRootGate() if {five}", "the fifth power of the root is the input")
        r.does("root-gate", "power_11_gate", f"{v},x if {eleven}", "the eleventh power of the root is the input")
    # the gates
    for h, q in (("RescueAffineGate", "q_lc"), ("Power5NonLinearGate", "q_hash")):
        r = Rule(rep, prog, RE, q, h, (), "self")
        if r.ok:
            r.canon = whole("4")
            r.value("gate", ["self.matrix_vector.vec"], "the selectors are the row of the matrix")
        for f, x in (("q_c", "self.constant"), ("q_o", "1")):
            r = Rule(rep, prog, RE, f, h, (), "self")
            if r.ok:
                r.value("gate", x, "the constant and the output")
        more = sorted(f.name for f in prog.fns.values() if f.crate == RE and f.trait and f.trait.endswith("::Gate") and h in f.path and f.name.startswith("q_") and f.name not in (q, "q_c", "q_o"))
        rep.verdict(not more, "gate", h, f"other selectors are set: {more}")
    # what is built from it
    r = Rule(rep, prog, RE, "commit", "PlonkCircuit", GAD, "cs input blinding", pick="::commitment::", cs=1)
    if r.ok:
        r.value("commit", "Ok(rescue_sponge_no_padding(pad_with'0([blinding, *input],3,zero()),1)[0])", "the hash of the blinding factor and the message, padded with zeros")
    r = Rule(rep, prog, RE, "eval_prf", "PlonkCircuit", GAD, "cs key input", cs=1)
    if r.ok:
        r.value("prf-gadget", "rescue_full_state_keyed_sponge_with_zero_padding(key,input)", "the keyed sponge with zero padding")
    r = Rule(rep, prog, RE, "pad_with", None, GAD, "list n x")
    if r.ok:
        rem = "(len(list) Rem n)"
        r.after("pad", 1, f"[*list, pad(x to either({rem} != 0 -> -{rem} + len(list) + n | {rem} == 0 -> len(list)))]", "up to the next multiple")


@check("R04", [RE], """Rescue in a circuit over another field: as the native gadget, with every addition and multiplication taken modulo the field of the permutation, both halves of every emulated
element bound to the step's result.""", floor=15)
def emulated_gadget(rep, prog):
    R = gadget(rep, prog, "non_native")
    frame(R, False)
    r = R("rescue_full_state_keyed_sponge_no_padding", "cs key data_vars")
    if r.ok:
        r.needs("prf-length", "len(data_vars) != 0", "an empty list is taken")
    st = lambda e, m="x.modulus": f"RescueNonNativeStateVar(state=[{{{e} for i in 4}}], modulus={m})"
    r = R("create_rescue_state_variable", "cs state")
    if r.ok:
        m = "1/(2)*1/(range_bit_len())*MODULUS_BIT_SIZE*range_bit_len() + range_bit_len()"
        p = f"new(from_le_bytes_mod_order(to_bytes_le(MODULUS)),{m},None())"
        r.value("state", "Ok(" + st(f"new_from_field_element(field_switching(state.vec[i]),{m},Some({p}.two_power_m))", p) + ")", "every pair of variables holds its entry, next to the modulus of the permutation's field")
    r = R("check_var_bound_rescue_state", "cs s")
    if r.ok:
        r.does("state-bound", "check_var_bound", ["s.state[i].vars.0 for i in 4", "s.state[i].vars.1 for i in 4"], "every variable is checked")
    sz = "x.state[0].m,Some(x.state[0].two_power_m)"
    r = R("add_constant_state", "cs x c")
    if r.ok:
        r.value("add-constant", "Ok(" + st(f"mod_add_constant(x.state[i],new(field_switching(c.vec[i]),{sz}),x.modulus)") + ")", "entry by entry")
    r = R("add_state", "cs x y")
    if r.ok:
        r.value("add", ["Ok(" + st(f"mod_add({a}.state[i],{b}.state[i],{c}.modulus)", d + ".modulus") + ")" for a, b in ("xy", "yx") for c in "xy" for d in "xy"], "entry by entry, in the field of the states")
        r.needs("add-modulus", ["-x.modulus + y.modulus == 0", "x.modulus + -y.modulus == 0"], "states with different moduli are added")
    r = R("pow_alpha_inv_state", "cs x")
    if r.ok:
        r.value("root", "Ok(" + st("pow_alpha_inv(x.state[i])") + ")", "entry by entry")
    wit = "field_switching(witness(x.state[%s]))"
    r = R("affine_transform", "cs x m c")
    if r.ok:
        new = f"new_from_field_element(field_switching(linear'0(RescueVector(vec=[{{{wit % 'j'} for j in 4}}]),m,c).vec[i]),{sz})"
        lin = f"non_native_linear_gen(x.state,[{{new(field_switching(m.matrix[i].vec[j]),{sz}) for j in 4}}],new(field_switching(c.vec[i]),{sz}))"
        r.value("affine", "Ok(" + st(new) + ")", "the variables hold the matrix times the state plus the constant")
        r.does("affine-bind", "enforce_equal", [(f"{new}.vars.{h},{lin}.vars.{h} for i in 4", f"{lin}.vars.{h},{new}.vars.{h} for i in 4") for h in "01"], "both halves are bound to the row of the matrix times the state plus the constant")
    r = R("non_linear_transform", "cs x m c")
    if r.ok:
        p = [f"new_from_field_element(field_switching(pow({wit % 'i'},[{a}])),{m},Some(x.state[0].two_power_m))" for a in ("A", "11") for m in ("x.modulus.m", "x.state[0].m")]
        r.value("powers", ["affine_transform(" + st(y) + ",m,c)" for y in p], "the matrix times the powers plus the constant")
        r.does("powers-gate", "non_native_power_11_gate", [tuple(f"x.state[i],{y} for i in 4" for y in p)], "every power is bound")
        r.needs("powers", "-11 + A == 0", "another exponent is taken")
    r = R("pow_alpha_inv", "cs x")
    if r.ok:
        v = "new_from_field_element(field_switching(pow(field_switching(witness(x)),A_INV)),x.m,Some(x.two_power_m))"
        r.value("root-variable", f"Ok({v})", "the variables hold the root")
        r.does("root-gate", "non_native_power_11_gate", f"{v},x", "the eleventh power of the root is the input")
        r.needs("root-gate", "-11 + A == 0", "another exponent is taken")
