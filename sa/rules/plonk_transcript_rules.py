"""PLONK: the transcripts themselves."""
from common import *
from core import check
from plonk_rules import path_of, partial, LEAF

C = "jf_plonk"
KEEP = LEAF | {"append_commitments", "append_field_elems", "bytes_to_field_elements", "evaluate", "field_switching", "fq_to_fr_with_mask", "convert_to_var", "rescue_sponge_with_padding", "truncate",
               "get_x", "get_y", "evals_vec", "next_evals_vec", "append_variable", "append_commitment_var", "append_commitments_vars", "append_message_vars"}
STATE = ("transcript", "transcript_var")


def absorbed(q, t, stop, depth=0):
    """what a transcript state holds in addition to the initial one: ("one", value) / ("seq", value) / ("call", call) / ("loop", domain, items); None when it was not followed"""
    t = q.an.simp(t)
    if stop(t):
        return []
    if depth > 60:
        return None
    if t.op == "store":
        b = t.args[0]
        names = [str(x[-1]) for x in t.args[1]]
        r = absorbed(q, b, stop, depth + 1)
        if r is None:
            return None
        if names[0] not in STATE:
            return r
        return parts(q, r, q.an.simp(t.args[2]), f(b, names[0]), depth) if len(names) == 1 else None
    if t.op == "out" and t.args[0].op == "call":
        c = t.args[0]
        if not isinstance(t.args[1], int):
            return None
        r = absorbed(q, c.args[2 + t.args[1]], stop, depth + 1)
        return None if r is None else r + [("call", c)]
    if t.op == "phi":
        lp = q.loop_phi(t)
        if lp is not None:
            h, init, step = lp
            rs = [absorbed(q, x, stop, depth + 1) for x in {q.an.simp(x) for x in init}]
            bs = [absorbed(q, x, lambda y: y is t, depth + 1) for x in {q.an.simp(x) for x in step}]
            if len(rs) != 1 or not bs or None in rs or None in bs or any(b != bs[0] for b in bs):
                return None
            return rs[0] + ([("loop", q.loop_domain(h), bs[0])] if bs[0] else [])
        rs = [absorbed(q, x, stop, depth + 1) for x in {q.an.simp(x) for x in q.an.phi_inputs(t)}]
        return rs[0] if rs and None not in rs and all(r == rs[0] for r in rs) else None
    return None


def parts(q, r, v, base, depth):
    """items of the new value of the recorded data on top of the old"""
    v = q.an.simp(v)
    if q.norm(v) is q.norm(base):
        return r
    if v.op == "push":
        x = parts(q, r, v.args[0], base, depth)
        return None if x is None else x + [("one", v.args[1])]
    if v.op in ("ext", "chain"):
        x = parts(q, r, v.args[0], base, depth)
        return None if x is None else x + [("seq", v.args[1])]
    if v.op == "phi":
        lp = q.loop_phi(v)
        if lp is not None and len({q.an.simp(x) for x in lp[1]}) == 1:
            r = parts(q, r, lp[1][0], base, depth)
            bs = [parts(q, [], x, v, depth) for x in {q.an.simp(x) for x in lp[2]}]
            if r is None or not bs or None in bs or any(b != bs[0] for b in bs):
                return None
            return r + ([("loop", q.loop_domain(lp[0]), bs[0])] if bs[0] else [])
    return None


def held(t, name):
    """the value of a field after a sequence of stores"""
    while t.op == "store":
        k = [str(x[-1]) for x in t.args[1]]
        if k[0] == name:
            return t.args[2] if len(k) == 1 else T("partly", t)
        t = t.args[0]
    return f(t, name)


PEEL = ("get_x", "get_y", "field_switching", "convert_to_var", "to_bytes_be", "to_bytes_le", "to_be_bytes", "to_le_bytes", "into_bigint", "clone", "as_ref", "to_vec", "unwrap", "xy", "expect",
        "bytes_to_field_elements", "evals_vec", "next_evals_vec", "iter", "into", "from")


def desc(q, v, roots):
    """(root, component, operations) of an absorbed value"""
    ops = []
    for _ in range(40):
        v = q.norm(v)
        for name, r in roots:
            p = path_of(q, v, r)
            if p is not None:
                return (name, tuple(x for x in p if x != "0"), tuple(ops))
        s = serialised(q, v)
        if s is not None:
            ops.append("bytes")
            v = s
            continue
        c = okof(v)
        if c is not None:
            v = c
            continue
        if v.op == "elem":
            d = desc(q, v.args[0], roots)
            return None if d is None else (d[0], d[1] + ("*",), tuple(ops) + d[2])
        if not find(q, v, lambda t: t.op in ("arg", "phi", "elem", "K", "out")):
            return ("constant", (), tuple(ops))
        if v.op == "field" and v.args[1] in ("0", "1", 0, 1):
            b = q.norm(v.args[0])
            b = okof(b) if okof(b) is not None else b
            if nm(b) in ("xy", "unwrap"):
                ops.append("xy"[int(v.args[1])])
                v = b
                continue
        if v.op == "field" and q.norm(v.args[0]).op == "phi" or v.op == "phi":
            # the point at infinity has a representation of its own
            ph = v if v.op == "phi" else q.norm(v.args[0])
            xs = [q.norm(x if v is ph else held(q.norm(x), str(v.args[1])) if q.norm(x).op != "agg" else q.norm(x).args[3 + int(v.args[1])]) for x in q.an.phi_inputs(ph)]
            xs = [x for x in xs if not (x.op == "call" and nm(x) == "zero")]
            if len(xs) == 1 and xs[0] is not v:
                v = xs[0]
                continue
        if v.op in ("conv", "cast"):
            v = v.args[0]
            continue
        if v.op == "call" and nm(v) in PEEL and len(v.args) > 2:
            if nm(v) not in ("clone", "as_ref", "to_vec", "iter", "into", "from", "unwrap", "expect", "xy", "into_bigint"):
                ops.append(nm(v))
            v = v.args[2]
            continue
        return None
    return None


def atoms(q, items, roots, star=""):
    """flat list of (label, root, component, operations): loops become "*"; None for what was not recognised; ("partial", …) for loops that do not cover everything"""
    out = []
    for it in items:
        if it[0] == "loop":
            p = partial(q, it[1]) if it[1] is not None else None
            sub = atoms(q, it[2], roots, star)
            out += sub if p is False else [None if p is None or x is None else ("partial",) + x for x in sub]
        elif it[0] == "call":
            c = it[1]
            n = nm(c)
            v = c.args[4] if len(c.args) > 4 else None
            xs = array_concat(q, v) if v is not None else [None]
            for x in xs:
                d = desc(q, x, roots) if x is not None else None
                if d is not None and n in ("append_commitments", "append_field_elems", "append_commitments_vars", "append_message_vars"):
                    d = (d[0], d[1] + ("*",), d[2])
                if d is not None and "commitment" in n:
                    d = (d[0], d[1], d[2] + ("point",))
                out.append(None if d is None else (pp(c.args[3], 3),) + d)
        else:
            d = desc(q, it[1], roots)
            if d is not None and it[0] == "seq":
                d = (d[0], d[1] + ("*",), d[2])
            out.append(None if d is None else ("",) + d)
    return out


def array_concat(q, v):
    """pieces a byte string is put together from"""
    v = q.norm(v)
    if v.op == "concat" and v.args[0].op == "agg":
        return list(v.args[0].args[3:])
    return [v]


def text(a):
    return "?" if a is None else ("only part of " if a[0] == "partial" else "") + ".".join(str(x) for x in (a[2:] if a[0] == "partial" else a[1:])[0:1] + tuple((a[3] if a[0] == "partial" else a[2])))


def comps(as_):
    """{(root, component)} -> operations"""
    out = {}
    for a in as_:
        if a is not None and a[0] != "partial":
            out.setdefault((a[1], a[2]), []).append(a[3])
    return out


REQUIRED = {
    "append_message": [("msg", ("*",))],
    "append_commitment": [("comm", ())],
    "append_field_elem": [("value", ())],
    "append_proof_evaluations": [("evals", ("wires_evals", "*")), ("evals", ("wire_sigma_evals", "*")), ("evals", ("perm_next_eval",))],
    "append_plookup_evaluations": [],
    "append_vk_and_pub_input": [("vk", ("selector_comms", "*")), ("vk", ("sigma_comms", "*")), ("input", ("*",))],
}
ROOTS = {"append_message": {"msg": 2}, "append_commitment": {"comm": 2}, "append_field_elem": {"value": 2}, "append_proof_evaluations": {"evals": 1}, "append_plookup_evaluations": {"evals": 1},
         "append_vk_and_pub_input": {"vk": 1, "input": 2}}
FULL = [("vk", ("k", "*")), ("vk", ("domain_size",)), ("vk", ("num_inputs",)), ("vk", ("open_key", "powers_of_h", "[1]"))]
VARS = {"append_commitment_var": ("append_commitment", {"comm": 2}), "append_proof_evaluations_vars": ("append_proof_evaluations", {"evals": 2}),
        "append_vk_and_pub_input_vars": ("append_vk_and_pub_input", {"vk": 2, "input": 3}), "append_variable": ("append_field_elem", {"value": 2}), "append_message_vars": ("append_message", {"msg": 2}),
        "append_commitments_vars": ("append_commitments", {"comms": 2})}


def recorded(rep, prog, fn, roots):
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in KEEP and g is not fn)
    rs = [(k, arg(fn, i + 1)) for k, i in roots.items()]
    res = []
    for n in ok_exits(an):
        st = final(n, 1)
        its = absorbed(q, st, lambda t: t is arg(fn, 'self')) if st is not None else None
        res.append(None if its is None else atoms(q, its, rs))
    # an implementation that ends with a call of another: the result of that call
    if not res or None in res:
        return q, None
    return q, res[0] if all(r == res[0] for r in res) else None


def judge(rep, w, want, got, facet="absorbs"):
    cs = comps(got)
    for root, path in want:
        part = any(a is not None and a[0] == "partial" and a[2:4] == (root, path) for a in got)
        ok = (root, path) in cs and not part
        rep.verdict(ok if ok or part or None not in got else None, facet, f"{w} {root}{''.join('.' + p for p in path)}", "recorded only in part" if part else f"not recorded; recorded: {', '.join(text(a) for a in got)}")


@check("L02", [C], """Transcript implementations. Decided: for every implementation of an absorbing operation, the value behind the receiver on return, as the old contents followed by the components
of the arguments it records (loops over a whole collection as one starred component). Everything the operation is given is recorded in full - both coordinates of a commitment; key
commitments, public inputs and, in the byte transcripts, domain size, number of inputs, separators and the G2 element of the reference string; the circuit transcript records the same
components in the same order as the native Rescue transcript. A challenge is computed from the previous state and everything recorded, replaces the state and clears the record.""", floor=20)
def l02(rep, prog):
    fns = [g for n in ROOTS for g in prog.find(C, n) if "transcript" in g.path]
    nat = {}
    for fn in fns:
        q, got = recorded(rep, prog, fn, ROOTS[fn.name])
        w = fn.path
        rescue = "RescueTranscript" in w
        if got is None:
            rep.unk("absorbs", w, "record not followed")
            continue
        if rescue:
            nat[fn.name] = got
        if fn.name == "append_message" and "StandardTranscript" in w:
            continue
        want = list(REQUIRED[fn.name]) + (FULL if fn.name == "append_vk_and_pub_input" and not rescue else [])
        if fn.name == "append_plookup_evaluations":
            ops = [a[3] for a in got if a is not None and a[0] != "partial"]
            for x in ("evals_vec", "next_evals_vec"):
                ok = any(x in o for o in ops)
                rep.verdict(ok if ok or None not in got else None, "absorbs", f"{w} {x}", f"not recorded in full; recorded: {got}")
            for a in got:
                if a is not None and a[0] == "partial":
                    rep.verdict(False, "absorbs", w, f"recorded only in part: {a}")
        judge(rep, w, want, got)
        coords(rep, w, fn.name, got, rescue or "Solidity" in w)
    std(rep, prog)
    for n in VARS:
        for fn in prog.find(C, n, "RescueTranscriptVar"):
            base, roots = VARS[n]
            q, got = recorded(rep, prog, fn, roots)
            if got is None:
                rep.unk("absorbs", fn.path, "record not followed")
                continue
            if base == "append_commitments":
                want = [("comms", ("*",))]
                judge(rep, fn.path, want, got)
                coords(rep, fn.path, n, got, True)
                continue
            judge(rep, fn.path, REQUIRED[base], got)
            a, b = order(nat.get(base) or [None]), order(got)
            rep.verdict(a == b if None not in nat.get(base, [None]) and None not in got else None, "mirror", fn.path, f"native: {a}; circuit: {b}")
    challenges(rep, prog)
    for head in ("RescueTranscript", "RescueTranscriptVar", "SolidityTranscript"):
        for fn in prog.find(C, "new", head):
            an, q = rep.analyse(prog, fn)
            for _, v in returned(q, ok_exits(an)):
                for name in ("transcript", "transcript_var", "state", "state_var"):
                    x = q.norm(f(v, name))
                    if x.op in ("field", "undef"):
                        continue
                    if name.startswith("transcript"):
                        rep.verdict(q.seq(x) == [] or nm(x) == "new" or (False if pure(x) else None), "initial", f"{fn.path} {name}", f"a new transcript starts with {show(x)}")
                    else:
                        ps = q.seq(x)
                        zero = lambda t: is_const(q.norm(t), 0) or nm(q.norm(t)) == "zero" or q.norm(t).op == "const" and "zero" in str(t.args[0]).lower()
                        rep.verdict(True if ps and all(p[0] in ("rep", "one") and zero(p[1]) for p in ps) else None if not pure(x) else False, "initial", f"{fn.path} {name}", f"a new transcript starts with {show(x)}")


def coords(rep, w, name, got, xy):
    """both coordinates of every recorded commitment"""
    for (root, path), ops in comps(got).items():
        if root in ("comm", "comms") or path and path[0].endswith("_comms"):
            if not xy or not any(o for o in ops):
                continue
            kinds = {k for o in ops for k in (("x",) if "get_x" in o or "x" in o else ("y",) if "get_y" in o or "y" in o else ("all",))}
            rep.verdict(kinds in ({"x", "y"}, {"all"}), "coordinates", f"{w} {root}{''.join('.' + p for p in path)}", f"recorded coordinates: {sorted(kinds)}")


def order(as_):
    """components in the order they are recorded, coordinates apart"""
    out = []
    for a in as_:
        if a is None:
            out.append(None)
            continue
        a = a[1:] if a[0] == "partial" else a
        if "point" in a[3]:
            out += [(a[1], a[2], "x"), (a[1], a[2], "y")]
            continue
        k = "x" if "get_x" in a[3] else "y" if "get_y" in a[3] else ""
        out.append((a[1], a[2], k))
    return out


def std(rep, prog):
    for fn in prog.find(C, "append_message", "StandardTranscript"):
        an, q = rep.analyse(prog, fn, opaque=lambda g: False)
        for n in ok_exits(an):
            cs = find(q, final(n, 1), lambda t: t.op == "call" and nm(t) == "append_message")
            ok = [c for c in cs if q.norm(c.args[3]) is arg(fn, 2) and path_of(q, c.args[4], arg(fn, 3)) == ()]
            rep.verdict(True if ok else None if cs and not all(pure(q.norm(x)) for c in cs for x in c.args[3:]) else False, "absorbs", f"{fn.path} msg", f"label and message recorded: {[show(c) for c in cs]}")


def challenges(rep, prog):
    for fn in prog.find(C, "get_challenge") + prog.find(C, "get_challenge_var"):
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in KEEP and g is not fn)
        w = fn.path
        me = arg(fn, 'self')
        std_ = "StandardTranscript" in w
        for n, v in [(n, v) for n in ok_exits(an) for _, v in returned(q, [n])]:
            st = final(n, 1)
            if std_:
                cs = find(q, v, lambda t: t.op == "call" and nm(t) == "challenge_bytes")
                ok = any(q.norm(c.args[2]) is q.norm(f(me, "0")) and q.norm(c.args[3]) is arg(fn, 2) for c in cs)
                rep.verdict(ok if ok or cs else None if not pure(v) else False, "challenge", w, f"the challenge is {show(v)}")
                for c in cs:
                    ok = q.norm(held(st, "0")) is q.norm(T("out", c, 0))
                    rep.verdict(ok, "state", w, f"the transcript after the challenge is {show(held(st, '0'))}")
                    ps = q.seq(c.args[4])
                    size = next((int(str(p[2].args[0])) for p in ps if p[0] == "rep" and str(p[2].args[0]).isdigit()), None)
                    rep.verdict(None if size is None else size >= 48, "challenge-size", w, f"the challenge is derived from {size} bytes")
                continue
            rec = "transcript_var" if fn.name.endswith("_var") else "transcript"
            sta = "state_var" if fn.name.endswith("_var") else "state"
            hs = [c for c in find(q, v, lambda t: t.op == "call" and nm(t) in ("evaluate", "rescue_sponge_with_padding", "finalize"), False)]
            if not hs:
                rep.verdict(False if pure(v) else None, "challenge", w, f"the challenge is not the output of the hash: {show(v)}")
                continue
            h = hs[0]
            ins = hashed(q, h)
            if ins is None:
                rep.unk("challenge", w, f"input of the hash: {show(h)}")
                continue
            want = [q.norm(f(me, sta)), q.norm(f(me, rec))]
            ok = [q.norm(x) for x in ins] == want
            rep.verdict(ok if ok or all(pure(q.norm(x)) for x in ins) else None, "challenge", w, f"the challenge is a hash of {', '.join(show(x) for x in ins)}")
            ns, nr = q.norm(held(st, sta)), q.norm(held(st, rec))
            cp = ns.args[0] if ns.op == "out" and nm(ns.args[0]) == "copy_from_slice" else None
            val = q.norm(cp.args[3]) if cp is not None else ns
            ok = bool(find(q, val, lambda t: t is h, False)) and not any(x.op == "phi" for x in [val])
            if val.op == "slice":
                val2 = q.norm(val.args[0])
                lo, hi = q.norm(val.args[1]), q.norm(val.args[2])
                ok = ok and is_const(lo, 0)
            rep.verdict(ok if ok or pure(val) else None, "state", w, f"the state after the challenge is {show(val)}")
            ps = q.seq(nr)
            rep.verdict(True if ps == [] or nm(nr) in ("new",) else False if pure(nr) or nr is q.norm(f(me, rec)) else None, "cleared", w, f"the record after the challenge is {show(nr)}")
            if nm(h) in ("evaluate", "rescue_sponge_with_padding"):
                ix = [t for t in find(q, v, lambda t: t.op == "index", False)]
                ok = any(is_const(q.norm(t.args[1]), 0) for t in ix)
                rep.verdict(ok if ix else None, "position", w, f"the challenge is {show(v)}")
            if nm(h) == "rescue_sponge_with_padding":
                refuses_curve(rep, an, q, w, h, v)


def refuses_curve(rep, an, q, w, h, v):
    """the truncation of the circuit agrees with the native conversion only for the supported curve, and only works with a range table"""
    facts, _ = accept_facts(an, q)
    has = lambda x, *names: isinstance(x, Term) and any(s in pp(x, 8) for s in names)
    expect(rep, facts, "lookup-required", w, lambda p: any(has(x, "support_lookup", "plonk_type") for x in p), "a circuit without a range table is accepted")
    for k in ("ScalarField", "BaseField"):
        expect(rep, facts, "curve", f"{w} {k}", lambda p: p[0] == "Eq" and any(has(x, "MODULUS_BIT_SIZE") and has(x, k) for x in p[1:]), f"the size of {k} is not checked")
    bits = [x.args[0] for p in facts if p.pred[0] == "Eq" and any(has(x, "ScalarField") for x in p.pred[1:]) for x in p.pred[1:] if isinstance(x, Term) and x.op == "const"]
    tr = [q.norm(t.args[4]) for t in find(q, v, lambda t: t.op == "call" and nm(t) == "truncate", False)]
    if len(bits) == 1 and tr and tr[0].op == "const":
        rep.verdict(tr[0].args[0] == (bits[0] - 1) // 8 * 8, "truncation", w, f"the challenge is cut to {tr[0].args[0]} bits, the native one to {(bits[0] - 1) // 8 * 8}")
    else:
        rep.verdict(False if not tr and pure(v) else None, "truncation", w, f"the challenge is {show(v)}")


def hashed(q, h):
    """pieces of the input of a hash call"""
    if nm(h) == "finalize":
        out = []
        t = q.norm(h.args[2])
        for _ in range(20):
            if t.op == "out" and nm(t.args[0]) in ("update", "absorb", "chain"):
                out.insert(0, t.args[0].args[3])
                t = q.norm(t.args[0].args[2])
            elif t.op == "call" and nm(t) in ("new", "default"):
                return out
            elif t.op == "call" and nm(t) in ("chain_update", "chain"):
                out.insert(0, t.args[3])
                t = q.norm(t.args[2])
            else:
                return None
        return None
    x = h.args[2] if nm(h) == "evaluate" else h.args[3]
    ps = q.seq(x)
    return [p[1] for p in ps] if all(p[0] == "all" for p in ps) else None
