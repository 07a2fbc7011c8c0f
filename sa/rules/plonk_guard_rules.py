"""PLONK: shapes that are refused."""
from common import *
from core import check
from guards import Checked, ln
from plonk_rules import ROUNDS

C = "jf_plonk"
INNER = {"compute_challenges", "compute_lin_poly_constant_term", "aggregate_poly_commitments", "aggregate_evaluations", "evaluate_vanishing_poly", "first_and_last_lagrange_coeffs",
         "compute_challenges_vars", "compute_alpha_basis", "evaluate_poly_helper", "compute_lin_poly_constant_term_circuit", "aggregate_poly_commitments_circuit", "aggregate_evaluations_circuit",
         "append_vk_and_pub_input", "append_message", "append_commitment", "append_commitments", "append_field_elem", "append_field_elems", "append_proof_evaluations", "append_plookup_evaluations",
         "get_challenge", "append_vk_and_pub_input_vars", "append_commitments_vars", "append_commitment_var", "append_proof_evaluations_vars", "get_challenge_var", "challenge_var_to_fp_elem_var",
         "prepare_pcs_info", "prepare_pcs_info_var", "batch_verify_opening_proofs", "batch_prove", "batch_prove_internal", "merge", "multi_scalar_mul", "msm", "mod_mul", "convert_to_var",
         "create_constant_point_variable", "ecc_add"} | ROUNDS


def eq(a, b, const=0):
    d = {a: 1, b: -1}
    if const:
        d[None] = const
    return d


@check("L03", [C], """Shapes of what is proved and verified. Decided: the conditions every successful return has passed (dominating guards, also those of every completed iteration of a checking
loop), as linear equations between lengths of components of the arguments; the required equations must follow from them. Number of keys, inputs and instances (and the per-instance lists
of the proof); number of public inputs, domain size and lookup support of every instance; number of commitments and evaluations of every instance; mixed batches; empty batches; the
opening check has to have succeeded.""", floor=9)
def l03(rep, prog):
    fn = rep.anchor(prog, C, "prepare_pcs_info", "Verifier")
    if fn:
        k = Checked(rep, prog, fn, INNER)
        vk, pi, bp = "verify_keys", "public_inputs", "batch_proof"
        k.equal("count", eq(ln(vk, ()), ln(pi, ())), "the number of public inputs is not compared with the number of keys", "inputs")
        for part in ("prod_perm_poly_comms_vec", "wires_poly_comms_vec", "poly_evals_vec", "plookup_proofs_vec"):
            k.equal("count", eq(ln(vk, ()), ln(bp, (part,))), f"the number of instances in {part} is not compared with the number of keys", part)
        k.excluded("empty", ln(vk, ()), 0, "an empty list of keys is accepted")
        k.equal("inputs", eq(ln(pi, ("*",)), (vk, ("*", "num_inputs"))), "the number of public inputs of an instance is not compared with its key")
        k.equal("domain", {(vk, ("*", "domain_size")): 1, k.key(size_of(k)): -1} if size_of(k) is not None else {(vk, ("*", "domain_size")): 1}, "the domain size of a key is not compared with the domain used")
        sig = ln(vk, ("*", "sigma_comms"))
        k.equal("shape", eq(ln(bp, ("wires_poly_comms_vec", "*")), sig), "the number of wire commitments of an instance is not checked", "wires_poly_comms")
        k.equal("shape", eq(ln(bp, ("poly_evals_vec", "*", "wires_evals")), sig), "the number of wire evaluations of an instance is not checked", "wires_evals")
        k.equal("shape", eq(ln(bp, ("poly_evals_vec", "*", "wire_sigma_evals")), sig, 1), "the number of permutation evaluations of an instance is not checked", "wire_sigma_evals")
        k.equal("shape", eq(ln(bp, ("split_quot_poly_comms",)), ln(vk, ("[0]", "sigma_comms"))), "the number of quotient commitments is not checked", "split_quot_poly_comms")
        h = ln(bp, ("plookup_proofs_vec", "*", "h_poly_comms"))
        k.when("shape", (bp, ("plookup_proofs_vec", "*")), "Some", {h: 1, None: -2}, "the number of sorted-vector commitments of a lookup proof is not checked", "h_poly_comms")
        k.agree("lookup", (bp, ("plookup_proofs_vec", "*")), (vk, ("*", "plookup_vk")), "a proof with lookup is accepted for a key without, or the other way round")
        k.agree("mixed", (vk, ("[0]", "plookup_vk")), (vk, ("*", "plookup_vk")), "keys with and without lookup are accepted in one batch")
    for name, head, vk, pi in (("compute_challenges", "Verifier", "verify_keys", "public_inputs"), ("compute_challenges_vars", None, "verify_keys", "public_inputs"), ("prepare_pcs_info_var", None, "verify_keys", "public_inputs")):
        fn = rep.anchor(prog, C, name, head) if head else rep.anchor(prog, C, name)
        if fn:
            k = Checked(rep, prog, fn, INNER)
            k.equal("count", eq(ln(vk, ()), ln(pi, ())), "the number of public inputs is not compared with the number of keys", "inputs")
            k.equal("count", eq(ln(vk, ()), ln("batch_proof", ("prod_perm_poly_comms_vec",))), "the number of instances is not compared with the number of keys", "instances")
            if name == "prepare_pcs_info_var":
                k.equal("inputs", eq(ln(pi, ("*",)), (vk, ("*", "num_inputs"))), "the number of public inputs of an instance is not compared with its key")
                k.equal("domain", {(vk, ("*", "domain_size")): 1, k.key(size_of(k)): -1} if size_of(k) is not None else {(vk, ("*", "domain_size")): 1}, "the domain size of a key is not compared with the domain used")
    fn = rep.anchor(prog, C, "verify_batch_proof", "PlonkKzgSnark")
    if fn:
        k = Checked(rep, prog, fn, INNER)
        k.excluded("empty", ln("verify_keys", ()), 0, "an empty list of keys is accepted")
        k.succeeded("decided", "prepare_pcs_info", "accepted although the proof was not evaluated")
        k.succeeded("decided", "batch_verify_opening_proofs", "accepted although the opening check failed", true=True, where="opening")
        opened(k, lambda q, t: t.op == "agg" and t.args[0] == "array" and len(t.args) == 4 and okof(q.norm(t.args[3])) is not None)
    fn = rep.anchor(prog, C, "batch_verify", "PlonkKzgSnark")
    if fn:
        k = Checked(rep, prog, fn, INNER)
        for x in ("public_inputs", "verify_keys", "extra_transcript_init_msgs"):
            k.equal("count", eq(ln(x, ()), ln("proofs", ())), f"the number of {x} is not compared with the number of proofs", x)
        k.excluded("empty", ln("verify_keys", ()), 0, "an empty batch is accepted")
        k.succeeded("decided", "batch_verify_opening_proofs", "accepted although the opening check failed", true=True, where="opening")
        opened(k, lambda q, t: all(p[0] in ("each", "all", "loop") for p in q.seq(t)))
    fn = rep.anchor(prog, C, "verify", "PlonkKzgSnark")
    if fn:
        k = Checked(rep, prog, fn, INNER | {"batch_verify"})
        ok = [v for _, _, v in k.points if v.op == "call" and nm(v) == "batch_verify"]
        rep.verdict(True if k.points and len(ok) == len(k.points) or any(fa.must and fa.pred[0] == "is" and nm(k.q.norm(fa.pred[1])) == "batch_verify" for fa in k.facts) else None, "decided", k.w, "does not go through batch verification")
        for c in ok:
            got = [[k.comp(x) for x in array_of(k.q.norm(a)) or ()] for a in c.args[2:]]
            rep.verdict(got == [[("verify_key", ())], [("public_input", ())], [("proof", ())], [("extra_transcript_init_msg", ())]] or (None if any(None in g or not g for g in got) else False), "delegates", k.w, f"verified: {got}")
    fn = rep.anchor(prog, C, "batch_prove_internal", "PlonkKzgSnark")
    if fn:
        k = Checked(rep, prog, fn, INNER)
        k.equal("count", eq(ln("circuits", ()), ln("prove_keys", ())), "the number of circuits is not compared with the number of keys")
        k.excluded("empty", ln("circuits", ()), 0, "an empty batch is accepted")
        prover(k)
    for name, head, a, b in (("batch_prove", "BatchArgument", "instances_type_a", "instances_type_b"), ("aggregate_verify_keys", "BatchArgument", "vks_type_a", "vks_type_b"),
                             ("aggregate_verify_keys", "PlonkCircuit", "vk_type_a_vars", "vk_type_b_vars")):
        fn = rep.anchor(prog, C, name, head)
        if fn:
            Checked(rep, prog, fn, INNER).equal("count", eq(ln(a, ()), ln(b, ())), "lists of different lengths are accepted")
    for name, head in (("partial_verify", "BatchArgument"), ("partial_verify_circuit", "VerifyingKeyVar")):
        fn = rep.anchor(prog, C, name, head)
        if fn:
            k = Checked(rep, prog, fn, INNER)
            k.excluded("empty", ln("merged_vks", ()), 0, "an empty list of keys is accepted")
            k.succeeded("decided", "prepare_pcs_info" if head == "BatchArgument" else "prepare_pcs_info_var", "succeeds although the proof was not evaluated")


def size_of(k):
    """the size of the domain the function works with, as it is compared with a key"""
    for fa in k.facts:
        if fa.must and fa.pred[0] == "Eq":
            for t, o in (fa.pred[1:], fa.pred[:0:-1]):
                t = k.q.norm(t)
                if k.comp(o) == ("verify_keys", ("*", "domain_size")) and (t.op == "call" and nm(t) == "size" and "domain" in pp(t.args[2], 3) or t.op == "field" and t.args[1] == "size"):
                    return t
    return None


def opened(k, shape):
    """what the opening check is applied to"""
    q = k.q
    for e in k.an.events:
        if e.name.split("::")[-1] == "batch_verify_opening_proofs" and e.ret is not None:
            c = e.ret
            t = q.norm(c.args[3])
            got = find(q, t, lambda x: x.op == "call" and nm(x) == "prepare_pcs_info")
            k.rep.verdict(True if got and shape(q, t) else False if pure(t) and not got else None, "opened", k.w, f"the opening check is applied to {show(t)}")
            d = [x for x in find(q, t, lambda x: x.op in ("take", "skip", "stepby", "slice"), False)]
            k.rep.verdict(not d, "opened-all", k.w, f"the opening check is applied to a part only: {show(t)}")


PROVER = (("domain", "eval_domain_size", "the domain size of a circuit"), ("key-domain", "domain_size", "the domain size of a key"), ("num-inputs", "num_inputs", "the number of public inputs"),
          ("wires", "num_wire_types", "the number of wire types"))


def prover(k):
    q = k.q
    facts = [fa.pred for fa in k.facts if fa.must and fa.pred[0] == "Eq"]

    def side(t):
        """(what, which circuit or key)"""
        t = q.norm(t)
        t = okof(t) if okof(t) is not None else t
        if t.op == "call" and len(t.args) > 2:
            c = k.comp(t.args[2])
            return (nm(t),) + c if c is not None else None
        c = k.comp(t)
        return None if c is None else ("",) + c
    pairs = [{side(a), side(b)} for _, a, b in facts]
    n = ("eval_domain_size", "circuits", ("[0]",))
    want = {"domain": {("eval_domain_size", "circuits", ("*",)), n}, "wires": {("num_wire_types", "circuits", ("*",)), ("num_wire_types", "circuits", ("[0]",))},
            "inputs": {("num_inputs", "circuits", ("*",)), ("", "prove_keys", ("*", "vk", "num_inputs"))}}
    for x, s in want.items():
        k.rep.verdict(s in pairs, x, k.w, f"not compared: {sorted(map(str, s))}")
    kd = [{("", "prove_keys", ("*", "vk", "domain_size")), n}, {("", "prove_keys", ("*", "vk", "domain_size")), ("eval_domain_size", "circuits", ("*",))}]
    k.rep.verdict(any(s in pairs for s in kd), "key-domain", k.w, "the domain size of a key is not compared")
    # lookup support of circuit and key
    for _, its in k.iterations():
        ok = []
        for it in its:
            a = {p[0] for p in it if p[0] in ("true", "false") and q.norm(p[1]).op == "call" and nm(q.norm(p[1])) == "support_lookup"}
            b = {p[2] for p in it if p[0] == "is" and k.comp(p[1]) == ("prove_keys", ("*", "plookup_pk"))}
            if len(a) > 1 or len(b) > 1:
                continue
            ok.append((a == {"true"} and b == {frozenset({"Some"})}) or (a == {"false"} and b == {frozenset({"None"})}))
        if ok and all(ok):
            return k.rep.verdict(True, "lookup", k.w, "")
    direct = [p for p in facts if any("support_lookup" in pp(x, 9) for x in p[1:]) and any("plookup_pk" in pp(x, 9) for x in p[1:])]
    k.rep.verdict(bool(direct), "lookup", k.w, "lookup support of a circuit is not compared with its key")
