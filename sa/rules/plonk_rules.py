"""PLONK: transcripts of prover, verifier and verifier circuit."""
from common import *
from core import check

C = "jf_plonk"
LEAF = {"append_message", "append_field_elem", "append_commitment", "get_challenge", "append_vk_and_pub_input"}
ROUNDS = {"run_1st_round", "run_plookup_1st_round", "run_2nd_round", "run_plookup_2nd_round", "run_3rd_round", "compute_evaluations", "compute_plookup_evaluations",
          "compute_non_quotient_component_for_lin_poly", "compute_quotient_component_for_lin_poly", "compute_opening_proofs"}
VAR = {"append_vk_and_pub_input_vars", "append_variable", "append_message_vars", "append_commitment_var", "append_commitments_vars", "append_proof_evaluations_vars", "get_challenge_var"}


# -------------------------------------------------------------- succession
def before(q, t, seen=None):
    """transcript calls that may immediately precede the transcript state t; the creation of the transcript counts as one"""
    seen = set() if seen is None else seen
    t = q.an.simp(t)
    if t in seen:
        return set()
    seen.add(t)
    if t.op == "out" and t.args[0].op == "call":
        return {t.args[0]}
    if t.op == "phi":
        r = set()
        for x in q.an.phi_inputs(t):
            r |= before(q, x, seen)
        return r
    return {t}


def path_of(q, t, root, tail=()):
    """where in the structure root a value comes from: field names, "*" for an element of a vector; None when it is something else"""
    t = q.norm(t)
    while True:
        if t is root:
            return tail
        if t.op == "field":
            x = t.args[0]
            if x.op == "as":
                t = q.norm(x.args[0])
                continue
            tail = (str(t.args[1]),) + tail
            t = q.norm(x)
        elif t.op == "elem":
            xs = array_of(q.norm(t.args[0]))
            if xs is not None:
                ps = [path_of(q, x, root) for x in xs]
                return None if None in ps else (("list",) + tuple(ps),) + tail
            tail = ("*",) + tail
            t = q.norm(t.args[0])
        elif t.op == "index":
            # one element per position of a counting loop
            i = q.norm(t.args[1])
            tail = (("*",) if i.op in ("ridx", "K", "idx") else (f"[{pp(i, 4)}]",)) + tail
            t = q.norm(t.args[0])
        elif t.op in ("conv", "cast", "ref", "deref"):
            t = q.norm(t.args[0])
        elif t.op in ("skip", "take", "stepby", "slice", "rev", "chunks"):
            tail = (f"({t.op})",) + tail
            t = q.norm(t.args[0])
        elif nm(t) in ("clone", "as_ref", "as_slice", "to_vec", "iter", "deref", "borrow") and t.op == "call" and len(t.args) == 3:
            t = q.norm(t.args[2])
        else:
            return None


def sources(q, t, path=(), seen=frozenset(), depth=0):
    """{(round, projections)} a value or the component `path` of a value was produced by"""
    t = q.norm(t)
    if depth > 60:
        return {("?", ())}
    if t.op == "phi":
        if (t, path) in seen:
            return set()
        ps = q.seq(t) if path[:1] == ("*",) else None
        if not ps or any(p[0] == "?" for p in ps):
            r = set()
            for x in q.an.phi_inputs(t):
                r |= sources(q, x, path, seen | {(t, path)}, depth + 1)
            return r
    if path and isinstance(path[0], tuple) and path[0][0] == "list":
        return {("list",) + tuple(frozenset(sources(q, t, p + path[1:], seen, depth + 1)) for p in path[0][1:])}
    c = okof(t)
    if c is not None:
        return sources(q, c, path, seen, depth + 1)
    if t.op == "call" and nm(t) in ROUNDS:
        return {(nm(t), path)}
    if t.op == "field":
        x = q.norm(t.args[0])
        if x.op == "as":
            return sources(q, x.args[0], path, seen, depth + 1)
        return sources(q, x, (str(t.args[1]),) + path, seen, depth + 1)
    if t.op == "elem":
        xs = array_of(q.norm(t.args[0]))
        if xs is not None:
            return {("list",) + tuple(frozenset(sources(q, x, path, seen, depth + 1)) for x in xs)}
        return sources(q, t.args[0], ("*",) + path, seen, depth + 1)
    if t.op == "index":
        i = q.norm(t.args[1])
        return sources(q, t.args[0], (("*",) if i.op in ("ridx", "K") else (pp(i, 4),)) + path, seen, depth + 1)
    if t.op == "agg":
        if t.args[1] in ("Some", "Ok"):
            return sources(q, payload(t), path, seen, depth + 1)
        if t.args[1] in ("None", "Err"):
            return set()
        if path and path[0] != "*":
            x = f(t, path[0])
            if x.op != "field" or x.args[0] is not t:
                return sources(q, x, path[1:], seen, depth + 1)
    if t.op in ("conv", "cast"):
        return sources(q, t.args[0], path, seen, depth + 1)
    if nm(t) in ("clone", "as_ref", "to_vec", "unwrap", "expect") and t.op == "call" and len(t.args) >= 3:
        return sources(q, t.args[2], path, seen, depth + 1)
    if path[:1] == ("*",) and t.op == "push":
        return sources(q, t.args[0], path, seen, depth + 1) | sources(q, t.args[1], path[1:], seen, depth + 1)
    if path[:1] == ("*",):
        r = set()
        for p in q.seq(t) or []:
            if p[0] == "one":
                r |= sources(q, p[1], path[1:], seen, depth + 1)
            elif p[0] == "each":
                r |= sources(q, p[2], path[1:], seen, depth + 1)
            elif p[0] == "loop":
                for b in p[2]:
                    r |= sources(q, b[1], path[1:], seen, depth + 1) if b[0] == "one" else {("?", ())}
            elif p[0] == "all" and q.norm(p[1]) is not t:
                r |= sources(q, p[1], path, seen, depth + 1)
            else:
                r |= {("?", pp(t, 3))}
        return r
    return {("?", pp(t, 3))}


def partial(q, d):
    """False when an iteration covers all of what it goes over in order, True when it certainly does not, None when that is open"""
    d = q.norm(d)
    if d.op == "zip":
        r = [partial(q, x) for x in d.args[:2]]
        return True if True in r else None if None in r else False
    if d.op in ("enumerate", "enum", "map", "cloned", "copied"):
        return partial(q, d.args[0])
    if d.op in ("skip", "stepby", "rev"):
        return True
    if d.op in ("take", "slice", "chunks", "filter", "takewhile", "skipwhile", "flatten"):
        n = q.norm(d.args[-1]) if d.op != "flatten" else None
        return True if d.op == "take" and (n.op == "const" or n.op == "bin" and n.args[0] == "Sub") or d.op == "slice" and any(x.op == "const" and x.args[0] for x in map(q.norm, d.args[1:])) else None
    if d.op == "agg" and str(d.args[0]).split("::")[-1] == "Range" or d.op == "ridx":
        a, b = (q.norm(x) for x in (d.args[3:5] if d.op == "agg" else d.args[:2]))
        return True if a.op == "const" and a.args[0] or b.op == "const" or b.op == "bin" and b.args[0] == "Sub" else False if b.op == "len" else None
    return False


def whole(rep, side):
    """every loop around an absorption goes over everything"""
    q = side.q
    for c in side.named("value", "key"):
        for e in side.calls[c]:
            for h, (body, _) in side.an.loops().items():
                if e.node.id in body:
                    d = q.loop_domain(h)
                    p = partial(q, d) if d is not None else None
                    rep.verdict(None if p is None else not p, "whole", f"{side.w} {symbol(c)[1] or 'key'}", f"absorbed only for {show(d) if d is not None else '?'}")


class Side:
    """the transcript calls of one party: symbol of each call, immediate succession of symbols"""
    def __init__(self, rep, prog, fn, leafs, opaque=frozenset()):
        self.w, self.fn = fn.path, fn
        self.an, self.q = rep.analyse(prog, fn, opaque=lambda g: g.name in leafs | opaque or g.name == "new" and "TranscriptVar" in g.path)
        self.calls = {}
        for e in self.an.events:
            if e.name.split("::")[-1] in leafs and e.ret is not None and e.ret.op == "call":
                self.calls.setdefault(e.ret, []).append(e)

    def named(self, *kinds):
        return [c for c in self.calls if symbol(c)[0] in kinds]


def lab(t):
    s = pp(t, 3)
    return s[2:] if s[:2] in ("s:", "b:") else s


CHALLENGES = ("tau", "beta", "gamma", "alpha", "zeta", "v", "u")
LOOKUP = {"tau", "h_poly_comms", "plookup_poly_comms", "plookup_evals", "plookup_next_evals"}
EVALS = (("wire_evals", ("wires_evals", "*")), ("wire_sigma_evals", ("wire_sigma_evals", "*")), ("perm_next_eval", ("perm_next_eval",)))
# what each challenge has to depend on in addition to the one before it: components of the proof
ROUND = {"beta": [("wires_poly_comms_vec", "*", "*"), ("plookup_proofs_vec", "*", "h_poly_comms", "*")],
         "alpha": [("prod_perm_poly_comms_vec", "*"), ("plookup_proofs_vec", "*", "prod_lookup_poly_comm")],
         "zeta": [("split_quot_poly_comms", "*")],
         "v": [("poly_evals_vec", "*", "wires_evals", "*"), ("poly_evals_vec", "*", "wire_sigma_evals", "*"), ("poly_evals_vec", "*", "perm_next_eval"),
               ("plookup_proofs_vec", "*", "poly_evals")],
         "u": [("opening_proof",), ("shifted_opening_proof",)]}


def symbol(c):
    """kind and label of a transcript call; None for anything else"""
    n = nm(c) if c.op == "call" else None
    if n in ("append_vk_and_pub_input", "append_vk_and_pub_input_vars"):
        return ("key", "")
    if n in ("get_challenge", "get_challenge_var"):
        return ("challenge", lab(c.args[3]))
    if n in ("append_message", "append_message_vars"):
        return ("message", lab(c.args[3]))
    if n in LEAF | VAR:
        return ("value", lab(c.args[3]))
    return ("start", "") if n == "new" else ("?", "")


def symbols(c):
    """[(symbol, repeated)] of one call: calls that take a whole vector stand for one absorption per element"""
    n = nm(c) if c.op == "call" else None
    if n == "append_proof_evaluations_vars":
        return [(("value", l), p[-1] == "*") for l, p in EVALS]
    return [(symbol(c), n in ("append_commitments_vars",))]


def succession(q, side, without=frozenset()):
    """{(a, b)}: something absorbed or squeezed with symbol a may come immediately before one with symbol b"""
    prev = {}

    def ends(c, seen):
        r = set()
        if c in seen:
            return r
        ss = symbols(c)
        for s, rep in reversed(ss):
            r.add(s)
            if not rep:
                return r
        if c.op == "call" and symbol(c)[0] not in ("start", "?"):
            for p in before(q, c.args[2]):
                r |= ends(p, seen | {c})
        return r
    out = set()
    for c in side.calls:
        pre = set()
        for p in before(q, c.args[2]):
            pre |= ends(p, frozenset())
        for s, rep in symbols(c):
            out |= {(a, s) for a in pre}
            if rep:
                out.add((s, s))
            pre = pre | {s} if rep else {s}
    drop = {x for p in out for x in p if x[1] in without}
    for x in drop:
        pre, post = {a for a, b in out if b == x and a != x}, {b for a, b in out if a == x and b != x}
        out = {(a, b) for a, b in out if x not in (a, b)} | {(a, b) for a in pre for b in post}
    return out


def upto(pairs, sym):
    """the succession up to and including a symbol"""
    return {(a, b) for a, b in pairs if a != sym and not (b != sym and not reach(pairs, b, sym))}


def reach(pairs, a, b):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        for p, s in pairs:
            if p == x and s not in seen:
                seen.add(s)
                todo.append(s)
    return False


def roles(side, root):
    """{label: {component of the proof}}"""
    out = {}
    for c in side.named("value"):
        n = nm(c)
        if n == "append_proof_evaluations_vars":
            p = path_of(side.q, c.args[4], root)
            for l, t in EVALS:
                out.setdefault(l, set()).add(None if p is None else p + t)
            continue
        p = path_of(side.q, c.args[4], root)
        out.setdefault(symbol(c)[1], set()).add(p if p is None or n != "append_commitments_vars" else p + ("*",))
    return out


def conditional(side):
    """[(label, condition)]: absorptions that take place under a condition that is neither the presence of what is absorbed nor an earlier success"""
    q = side.q
    fin = set()
    nodes = {c: [e.node.id for e in es] for c, es in side.calls.items()}
    for c in side.named("challenge"):
        if symbol(c)[1] in ("v", "u"):
            for n in nodes[c]:
                fin |= {(q.norm(x), str(l)) for x, l in q.node_conds(n)}
    out = []
    for c in side.named("value", "key", "message"):
        for n in nodes[c]:
            for x, l in q.node_conds(n):
                x = q.norm(x)
                if (x, str(l)) in fin or x.op == "more":
                    continue
                if x.op == "disc":
                    continue
                if x.op == "call" and nm(x) in ("support_lookup", "is_some"):
                    continue
                out.append((symbol(c)[1], x))
    return out


def challenge_label(q, t, seen=frozenset()):
    """labels of the challenges a value may be; "?" for anything else"""
    t = q.norm(t)
    if t.op == "phi" and t not in seen:
        r = set()
        for x in q.an.phi_inputs(t):
            r |= challenge_label(q, x, seen | {t})
        return r
    if t.op == "phi":
        return set()
    if t.op == "agg" and t.args[1] == "Some":
        return challenge_label(q, payload(t), seen)
    if t.op == "agg" and t.args[1] == "None":
        return set()
    if t.op == "agg" and t.args[1] == "Ok":
        return challenge_label(q, payload(t), seen)
    c = okof(t)
    if c is not None and c.op == "call" and nm(c) in ("get_challenge", "get_challenge_var"):
        return {lab(c.args[3])}
    if nm(t) == "default" or t.op == "undef":
        return {"default"}
    return {"?"}


@check("L01", [C], """Challenges of proving and verification. Decided: the transcript calls of the prover, of the verifier and of the verifier circuit, with the relation "may come immediately
before" read off the transcript state each call receives; the component of the proof every absorbed value is taken from (on the prover's side: the round whose output ends up in that
component of the returned proof). The relations agree up to the last common challenge; every component of the proof is absorbed before the challenge of its round and cannot be absorbed
after it; keys with their public inputs and the optional message come first; no absorption depends on another condition; every challenge ends up in the variable it is named after.""", floor=3)
def l01(rep, prog):
    ver = rep.anchor(prog, C, "compute_challenges", "Verifier")
    prv = rep.anchor(prog, C, "batch_prove_internal", "PlonkKzgSnark")
    cir = rep.anchor(prog, C, "compute_challenges_vars")
    if None in (ver, prv, cir):
        return
    V, P, X = Side(rep, prog, ver, LEAF), Side(rep, prog, prv, LEAF, ROUNDS), Side(rep, prog, cir, VAR, {"challenge_var_to_fp_elem_var", "create_variable", "bytes_to_field_elements"})
    sv, sp, sx = (succession(s.q, s) for s in (V, P, X))
    for s, pairs in ((V, sv), (P, sp), (X, sx)):
        bad = sorted({b for a, b in pairs if a == ("?", "")})
        rep.verdict(None if bad else True, "history", s.w, f"transcript not followed before {bad}")
    last_ = ("challenge", "v")
    diff = upto(sv, last_) ^ upto(sp, last_)
    unk = any(a == ("?", "") for a, _ in sv | sp)
    rep.verdict(True if not diff else None if unk else False, "order", P.w, f"prover and verifier absorb in different orders: {order_text(diff, upto(sv, last_), 'verifier', 'prover')}")
    svn, sxn = succession(V.q, V, LOOKUP), succession(X.q, X, LOOKUP)
    diff = svn ^ sxn
    rep.verdict(True if not diff else None if any(a == ("?", "") for a, _ in svn | sxn) else False, "order", X.w, f"verifier circuit and verifier absorb in different orders: {order_text(diff, svn, 'verifier', 'circuit')}")
    # components
    bp = arg(ver, 3)
    rv = roles(V, bp)
    rx = roles(X, arg(cir, 4))
    for l in sorted(rx):
        a, b = rx[l], rv.get(l)
        rep.verdict(None if None in a or b is None or None in b else a == b, "component", f"{X.w} {l}", f"the circuit absorbs {comp(a)}, the verifier {comp(b or {None})}")
    proofs = [(v.args[3], v) for _, v in returned(P.q, ok_exits(P.an)) if v.op == "agg" and v.args[0] == "tuple" and len(v.args) > 3]
    for c in P.named("value"):
        l = symbol(c)[1]
        got = sources(P.q, c.args[4])
        for pf, _ in proofs:
            for path in rv.get(l) or {None}:
                want = sources(P.q, pf, path) if path is not None else {("?", "")}
                ok = None if unresolved(got) or unresolved(want) else got == want
                rep.verdict(ok, "component", f"{P.w} {l}", f"the prover absorbs {got}, the verifier {path} of the proof, produced by {want}")
    if not proofs:
        rep.unk("component", P.w, "the returned proof was not recognised")
    # every component before its challenge, none after
    for s, pairs, rl in ((V, sv, rv), (X, sx, rx)):
        for ch, comps in ROUND.items():
            for path in comps:
                if s is X and path[0] == "plookup_proofs_vec":
                    continue
                ls = [l for l, ps in rl.items() for p in ps if p is not None and covers_path(p, path)]
                if not ls:
                    rep.verdict(None if any(None in ps for ps in rl.values()) else False, "absorbed", f"{s.w} {'.'.join(path)}", "this part of the proof is not absorbed")
                    continue
                if path[-1] == "poly_evals":
                    adt = [a for p, a in prog.adts.items() if p.split("::")[-1] == "PlookupEvaluations"]
                    have = {x[-1] for l in ls for p in rl[l] if p is not None and covers_path(p, path) for x in p[0][1:]}
                    for fld in adt[0]["variants"][0]["fields"] if adt else ():
                        rep.verdict(fld[0] in have, "absorbed", f"{s.w} {fld[0]}", "this evaluation of the lookup argument is not absorbed")
                ok = all(reach(pairs, ("value", l), ("challenge", ch)) and not reach(pairs, ("challenge", ch), ("value", l)) for l in ls)
                rep.verdict(ok, "absorbed", f"{s.w} {'.'.join(path)}", f"not absorbed before the challenge {ch}")
        for l, ps in sorted(rl.items()):
            for p in ps:
                if p is not None and not any(covers_path(p, path) for comps in ROUND.values() for path in comps):
                    rep.unk("known-component", f"{s.w} {l}", str(p))
    for s, pairs in ((V, sv), (P, sp), (X, sx)):
        chs = [x for x in CHALLENGES if ("challenge", x) in {b for _, b in pairs}]
        for k in ("key", "message"):
            syms = {b for _, b in pairs if b[0] == k}
            ok = bool(syms) and all(not reach(pairs, y, x) for x in syms for y in [b for _, b in pairs if b[0] in ("value", "challenge")])
            rep.verdict(ok, k, s.w, f"the {'keys and public inputs' if k == 'key' else 'extra message'} are not absorbed first" if syms else "not absorbed at all")
        first = [x for x in chs if x != "tau"]
        need = [x for x in CHALLENGES if x not in ("tau",) and not (s is P and x == "u")]
        rep.verdict(first == need, "challenges", s.w, f"challenges: {chs}")
        for a, b in zip(need, need[1:]):
            if a in chs and b in chs:
                rep.verdict(reach(pairs, ("challenge", a), ("challenge", b)) and not reach(pairs, ("challenge", b), ("challenge", a)), "challenge-order", f"{s.w} {b}", f"{b} is squeezed before {a}")
        whole(rep, s)
        for l, x in conditional(s):
            rep.verdict(False if pure(x) else None, "conditional", f"{s.w} {l}", f"absorbed only if {pp(x, 5)}")
    # keys and inputs
    for s, kv in ((V, (arg(ver, 1), arg(ver, 2))), (X, (arg(cir, 2), arg(cir, 3)))):
        for c in s.named("key"):
            xs = [s.q.norm(x) for x in c.args[3 if s is V else 4:5 if s is V else 6]]
            ok = len(xs) == 2 and all(path_of(s.q, x, r) == ("*",) for x, r in zip(xs, kv))
            rep.verdict(ok if ok or all(pure(x) for x in xs) else None, "keys", s.w, f"absorbed: {', '.join(show(x) for x in xs)}")
    for c in P.named("key"):
        ks, cs = arg(prv, 3), arg(prv, 2)
        a = path_of(P.q, c.args[3], ks)
        pi = okof(P.q.norm(c.args[4]))
        b = path_of(P.q, pi.args[2], cs) if pi is not None and nm(pi) == "public_input" else None
        ok = a == ("*", "vk") and b == ("*",)
        rep.verdict(ok if ok or a is not None and b is not None else None, "keys", P.w, f"absorbed: {show(c.args[3])}, {show(c.args[4])}")
    for s, root in ((V, arg(ver, 4)), (P, None), (X, None)):
        for c in s.named("message"):
            x = s.q.norm(c.args[4])
            if s is X:
                ps = s.q.seq(x)
                bs = find(s.q, x, lambda y: y.op == "call" and nm(y) == "bytes_to_field_elements", False) + find(s.q, x, lambda y: y.op == "arg", False)
                rep.verdict(True if any(y.op == "arg" and y is arg(cir, 5) for y in bs) else None, "message-content", s.w, show(x))
            else:
                a = path_of(s.q, x, root if root is not None else arg(prv, 4))
                rep.verdict(True if a == ("0",) or a == () else None if a is None else False, "message-content", s.w, f"absorbed: {show(x)}")
    # the challenges in their variables
    for s in (V, P, X):
        for _, v in returned(s.q, ok_exits(s.an)):
            v = s.q.norm(v)
            if s is P:
                v = s.q.norm(v.args[5]) if v.op == "agg" and v.args[0] == "tuple" and len(v.args) == 6 else v
            if s is X:
                c = v if v.op == "call" else okof(v)
                v = s.q.norm(c.args[3]) if c is not None and nm(c) == "challenge_var_to_fp_elem_var" else v
            named(rep, s, v)
        if s is P:
            for e in s.an.events:
                if e.name.split("::")[-1] in ROUNDS and e.ret is not None:
                    for a in e.ret.args[2:]:
                        a = s.q.norm(a)
                        if a.op == "agg" and a.args[0].split("::")[-1] == "Challenges":
                            named(rep, s, a, need=NEED.get(nm(e.ret), ()), where=" " + nm(e.ret))


NEED = {"run_2nd_round": ("beta", "gamma"), "run_plookup_2nd_round": ("beta", "gamma", "tau"), "run_3rd_round": ("alpha", "beta", "gamma"),
        "compute_evaluations": ("zeta",), "compute_plookup_evaluations": ("zeta",), "compute_non_quotient_component_for_lin_poly": ("alpha", "beta", "gamma", "zeta")}


def named(rep, s, v, need=None, where=""):
    if v.op != "agg" or v.args[0].split("::")[-1] not in ("Challenges", "ChallengesVar"):
        rep.unk("challenge-variables", s.w + where, pp(v, 3))
        return
    for x in CHALLENGES:
        t = f(v, x)
        if t.op == "field" and t.args[0] is v:
            continue
        ls = challenge_label(s.q, t)
        must = need is None and not (s.w.endswith("batch_prove_internal") and x == "u") or need is not None and x in need
        if not ls - {"default"}:
            rep.verdict(not must or x == "tau", "challenge-variables", f"{s.w}{where} {x}", "the challenge is not set")
        else:
            ok = None if "?" in ls else ls - {"default"} == {x}
            rep.verdict(ok, "challenge-variables", f"{s.w}{where} {x}", f"set to the challenge {', '.join(sorted(ls))}")


def covers_path(p, path):
    """the absorbed component p is (part of) the required one"""
    if p and isinstance(p[0], tuple):
        return path == ("plookup_proofs_vec", "*", "poly_evals") and all(x[:3] == path for x in p[0][1:])
    return p == path


def unresolved(s):
    return not s or any(x[0] == "?" or x[0] == "list" and any(unresolved(y) for y in x[1:]) for x in s)


def comp(ps):
    return " / ".join(".".join(map(str, p)) if p is not None else "?" for p in ps)


def order_text(diff, left, a, b):
    xs = sorted(diff)[:4]
    return "; ".join(f"{x[1] or x[0]} directly before {y[1] or y[0]} only in the {a if (x, y) in left else b}" for x, y in xs)
