"""jf-merkle-tree: circuit counterparts of the proof checks."""
from common import *
from gadget import Circ, gadget_op, one, pkey, psub
from merkle_rules import C, HASH, every_iteration, hashed, impl_key, last, parts_of, sep_of

CIRCUIT = ("digest", "digest_leaf", "rescue_sponge_no_padding", "rescue_sponge_with_padding", "to_traversal_path", "compute_len_to_next_multiple", "is_member", "is_non_member")


def field_seq(q, t):
    """sequence parts of a hash input with the separator as an integer: [0 or 1 or term..., ("all", root)], and the padding"""
    out, pad = [], None
    t = q.norm(t)
    if t.op == "resize":
        pad = (q.norm(t.args[1]), q.norm(t.args[2]))
        t = t.args[0]
    for p in q.seq(t) or ():
        if p[0] == "one":
            s = sep_of(q, p)
            x = peel(q, p[1], "borrow")
            out.append(s[1] if s is not None else 0 if nm(x) == "zero" else 1 if nm(x) == "one" else x)
        elif p[0] in ("all", "each") and isinstance(p[1], Term):
            out.append(("all", q.norm(p[1])))
        else:
            out.append(None)
    return out, pad


def named_seq(fn, its):
    """arguments by position, so that the native and the circuit version can be compared"""
    names = {arg(fn, i): f"arg{i}" for i in range(1, 6) if has_arg(fn, i)}
    r = []
    for x in its:
        if isinstance(x, tuple):
            r.append(("all", names.get(x[1])))
        elif isinstance(x, Term):
            while x.op in ("conv", "cast") or nm(x) in ("from", "into", "clone") and len(x.args) == 3:
                x = x.args[0] if x.op in ("conv", "cast") else x.args[2]
            r.append(names.get(x))
        else:
            r.append(x)
    return r


def has_arg(fn, i):
    try:
        return arg(fn, i) is not None
    except Exception:
        return False


def ordering(rep, q, c, facet, w, labels, node, s1, s2, left, right):
    """the three inputs of a node digest: the node stands at its branch, the siblings keep their order"""
    if labels is None:
        return rep.verdict(None, facet, w, "the children are not a fixed list")
    if len(labels) != 3:
        return rep.verdict(False, facet, w, f"{len(labels)} children")
    L, R = pkey(c(left)), pkey(c(right))
    n, a, b = c(node), c(s1), c(s2)
    known = {x for p in (n, a, b, c(left), c(right)) for k in p for x in k}
    for l, r, want in ((1, 0, (n, a, b)), (0, 0, (a, n, b)), (0, 1, (a, b, n))):
        env = {L: {(): 1} if l else {}, R: {(): 1} if r else {}}
        for i in range(3):
            got = psub(c(labels[i]), env)
            if got != want[i]:
                pure_ = all(x in known for k in got for x in k)
                rep.verdict(False if pure_ else None, facet, w, f"with the flags ({l},{r}) child {i} is {poly_text(got)}, expected {poly_text(want[i])}")
                return
    rep.verdict(True, facet, w, "")


def node_vars(q, proof):
    return f(proof, "node_vars")


def path_loop(q, an, header, proof):
    d = q.loop_domain(header)
    d = q.norm(d) if d is not None else None
    return True if d is node_vars(q, proof) else False if d is not None and d.op in ("rev", "skip", "take", "step", "slice") and find(q, d, lambda x: x is node_vars(q, proof)) else None


@check("M08", [C], """Circuit counterparts of the proof checks, read as polynomials over the gadget inputs. Decided: the children handed to the node digest are, for each of the three branches, the
current node at that branch and the two siblings in order; the circuit digests absorb the same separator, inputs and zero padding as the native ones; membership recomputes the root from the
leaf digest of the given position and element over every level and compares it with the commitment; absence rebuilds the position from the branch flags in base three, starts from the empty
value, collapses a node only when all three children are empty, and requires both comparisons; branch flags are boolean and at most one is set; the variables carry the proof's siblings and
the branches of the position; the enforcing versions require the result to be true.""", floor=9)
def m08(rep, prog):
    fn = rep.anchor(prog, C, "constrain_sibling_order")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=gadget_op())
        c = Circ(q)
        for _, v in returned(q, ok_exits(an)):
            ordering(rep, q, c, "child-order", fn.path, array_of(v), *[arg(fn, i) for i in range(2, 7)])
    # digests
    nat = {}
    for name in ("digest", "digest_leaf"):
        for g in prog.find(C, name, trait="DigestAlgorithm"):
            if "RescueHash" in impl_key(g):
                nat[name] = g
    for name in ("digest", "digest_leaf"):
        fs = prog.find(C, name, trait="DigestAlgorithmGadget")
        rep.verdict(bool(fs) and name in nat, "digest-impls", name, "no circuit digest found")
        for fn in fs:
            an, q = rep.analyse(prog, fn, opaque=gadget_op(*CIRCUIT, without=(name,)))
            an2, q2 = rep.analyse(prog, nat[name], opaque=lambda g: g.name in HASH)
            want = None
            for _, v in returned(q2, ok_exits(an2)):
                h = hashed(q2, v)
                if h is not None and h[0] == "field":
                    want = named_seq(nat[name], field_seq(q2, h[1])[0])
            for _, v in returned(q, ok_exits(an)):
                c = okof(v.args[0]) if v.op == "index" else None
                if c is None or nm(c) not in ("rescue_sponge_no_padding", "rescue_sponge_with_padding"):
                    rep.verdict(None, "digest", fn.path, pp(v, 4))
                    continue
                rep.verdict(is_const(q.norm(v.args[1]), 0) and is_const(q.norm(c.args[4]), 1), "digest-output", fn.path, pp(v, 3))
                its, pad = field_seq(q, c.args[3])
                got = named_seq(fn, its)
                sh = [f"arg{int(x[3:]) - 1}" if isinstance(x, str) and x.startswith("arg") else ("all", f"arg{int(x[1][3:]) - 1}") if isinstance(x, tuple) and x[1] else x for x in got]
                und = None in got or want is None or None in want or ("all", None) in got or ("all", None) in want
                rep.verdict(None if und else sh == want, "digest-input", fn.path, f"the circuit absorbs {got} after its state argument, the native digest {want}")
                if nm(c) == "rescue_sponge_no_padding":
                    ok = None
                    if pad is None and not und:
                        # one entry per child of a node of the three-ary tree
                        ok = sum(3 if isinstance(x, tuple) else 1 for x in got) % 3 == 0
                    if pad is not None:
                        n, z = pad
                        ok = nm(z) == "zero" and nm(n) == "compute_len_to_next_multiple"
                        if ok:
                            m = q.norm(n.args[3])
                            ok = True if is_const(m, 3) else False if m.op == "const" else None
                        elif nm(z) not in ("zero",):
                            ok = False if nm(z) in ("one",) else None
                        else:
                            ok = None
                    rep.verdict(ok, "digest-padding", fn.path, f"padding {pad}")
    # enforcing versions
    for name, inner in (("enforce_membership_proof", "is_member"), ("enforce_non_membership_proof", "is_non_member")):
        for fn in prog.find(C, name):
            an, q = rep.analyse(prog, fn, opaque=gadget_op(*CIRCUIT))
            facts, _ = accept_facts(an, q)
            args = [arg(fn, i) for i in range(2, 6) if has_arg(fn, i)]
            for e in [e for e in an.events if last(e) == inner]:
                got = [peel(q, x, "borrow") for x in e.args[1:]]
                rep.verdict(got == args[:len(got)] and len(got) >= 3 if all(pure(x) for x in got) else None, "enforce-args", fn.path, f"{[pp(x, 2) for x in got]}")

            def m(x):
                c = okof(x) if x is not None else None
                return c is not None and nm(c) == inner
            cands = [v for _, v in returned(q, an.exits())] + [fa.pred[1] for fa in facts if fa.must and fa.pred[0] == "is"]
            ok = False
            for v in cands:
                if nm(v) == "enforce_true" and v.op == "call":
                    ok = ok or m(Circ(q).strip(v.args[3]))
                if nm(v) in ("enforce_constant", "enforce_equal") and v.op == "call" and (nm(Circ(q).strip(v.args[4])) == "one"):
                    ok = ok or m(Circ(q).strip(v.args[3]))
            rep.verdict(ok, "enforced", fn.path, f"the result of {inner} is not enforced")
    m08_member(rep, prog)
    m08_absent(rep, prog)
    m08_vars(rep, prog)


def loop_value(q, t, c):
    """(header, initial values, values after an iteration) of the loop-carried variable t"""
    t = c.strip(t)
    if t.op != "phi":
        return None
    return q.loop_phi(t)


def level(rep, q, an, c, facet, w, dg, cur, header, proof):
    """a node digest of the current value with the level's siblings"""
    xs = c.array(dg.args[3])
    e = None
    if xs is None:
        # children from the ordering helper
        h = okof(q.norm(dg.args[3]))
        return rep.verdict(None, facet, w, pp(dg, 4))
    els = {x for y in xs for x in find(q, y, lambda z: z.op == "elem" and q.norm(z.args[0]) is node_vars(q, proof), False)}
    if len(els) != 1:
        return rep.verdict(None, facet, w, f"{len(els)} elements")
    e = els.pop()
    ordering(rep, q, c, facet, w, xs, cur, f(e, "sibling1"), f(e, "sibling2"), f(e, "is_left_child"), f(e, "is_right_child"))


def m08_member(rep, prog):
    for fn in prog.find(C, "is_member"):
        if "gadgets" not in fn.path:
            continue
        an, q = rep.analyse(prog, fn, opaque=gadget_op(*CIRCUIT, without=("is_member",)))
        c = Circ(q)
        w = fn.path
        idx, el, proof, com = [arg(fn, i) for i in range(2, 6)]
        vals = [v for _, v in returned(q, an.exits()) if not (v.op == "agg" and v.args[1] == "Err")]
        for v in vals:
            v = payload(v) if v.op == "agg" else v
            k = c.call(v)
            if k is None or nm(k) != "is_equal":
                rep.verdict(False if k is not None and nm(k) in ("one", "true_var", "create_boolean_variable") else None, "root-compared", w, pp(v, 4))
                continue
            xs = [c.strip(x) for x in k.args[3:5]]
            rep.verdict(True if com in xs else None if not all(pure(x) for x in xs) else False, "root-compared", w, f"{[pp(x, 3) for x in xs]}")
            o = [x for x in xs if x is not com]
            lp = loop_value(q, o[0], c) if len(o) == 1 else None
            if lp is None:
                k = c.call(o[0]) if len(o) == 1 else None
                rep.verdict(False if k is not None and nm(k) == "digest_leaf" else None, "levels", w, "the digest of the leaf is compared with the commitment")
                continue
            header, inits, steps = lp
            rep.verdict(path_loop(q, an, header, proof), "levels", w, f"iterates over {pp(q.loop_domain(header), 3) if q.loop_domain(header) is not None else '?'}")
            for i in inits:
                k = c.call(i)
                ok = None
                if k is not None and nm(k) == "digest_leaf":
                    ok = c.strip(k.args[3]) is idx and c.strip(k.args[4]) is el
                elif c.strip(i) in (idx, el):
                    ok = False
                rep.verdict(ok, "leaf", w, pp(i, 4))
            for s in steps:
                k = c.call(s)
                if k is None or nm(k) != "digest":
                    rep.verdict(False if c.strip(s) is c.strip(o[0]) else None, "level", w, f"a level leaves the value {pp(s, 3)}")
                    continue
                level(rep, q, an, c, "level", w, k, o[0], header, proof)


def m08_absent(rep, prog):
    fn = rep.anchor(prog, C, "is_non_member")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn, opaque=gadget_op(*CIRCUIT, without=("is_non_member",)))
    c = Circ(q)
    w = fn.path
    idx, proof, com = [arg(fn, i) for i in range(2, 5)]
    vals = [v for _, v in returned(q, an.exits()) if not (v.op == "agg" and v.args[1] == "Err")]
    for v in vals:
        v = payload(v) if v.op == "agg" else v
        k = c.call(v)
        parts = []

        def conj(x):
            k = c.call(x)
            if k is not None and nm(k) == "logic_and":
                conj(k.args[3])
                conj(k.args[4])
            elif k is not None and nm(k) == "logic_and_all" and c.array(k.args[3]) is not None:
                for y in c.array(k.args[3]):
                    conj(y)
            else:
                parts.append(x)
        conj(v)
        eqs = {}
        for p in parts:
            k = c.call(p)
            if k is not None and nm(k) == "is_equal":
                xs = [c.strip(x) for x in k.args[3:5]]
                for x, y in (xs, xs[::-1]):
                    if x in (idx, com):
                        eqs[x] = y
        known = all(c.call(p) is not None for p in parts)
        for r, name in ((idx, "position-compared"), (com, "root-compared")):
            rep.verdict(True if r in eqs else False if known else None, name, w, f"the result is the conjunction of {[pp(x, 3) for x in parts]}")
        if idx in eqs:
            lp = loop_value(q, eqs[idx], c)
            if lp is None:
                k = c.call(eqs[idx])
                rep.verdict(False if k is not None and nm(k) in ("zero", "one") else None, "position", w, f"the position is compared with {pp(eqs[idx], 3)}")
            else:
                header, inits, steps = lp
                rep.verdict(path_loop(q, an, header, proof), "position-levels", w, "")
                rep.verdict(all(c(i) == {} for i in inits), "position-start", w, f"{[pp(i, 3) for i in inits]}")
                for s in steps:
                    p = c(s)
                    acc = c.strip(eqs[idx])
                    rest = padd(p, one(acc), -1)
                    ats = {x for k in rest for x in k}
                    els = {x.args[0] for x in ats if x.op == "field"}
                    bases = [x for x in ats if x.op == "phi"]
                    if len(els) != 1 or len(bases) != 1:
                        rep.verdict(None, "position-step", w, poly_text(p))
                        continue
                    e, b = els.pop(), bases[0]
                    L, R = f(e, "is_left_child"), f(e, "is_right_child")
                    want = pmul(padd(padd({(): 1}, one(L), -1), one(R), 1), one(b))
                    rep.verdict(rest == want, "position-step", w, f"a level adds {poly_text(rest)}")
                    lb = q.loop_phi(b)
                    if lb is None:
                        rep.verdict(None, "position-base", w, pp(b, 3))
                        continue
                    ok = all(ring(q, i) == {(): 1} for i in lb[1]) and all(ring(q, s) == {(b,): 3} for s in lb[2])
                    rep.verdict(ok if all(set(x for k in ring(q, s) for x in k) <= {b} for s in lb[2]) else None, "position-base", w, f"{[pp(x, 3) for x in lb[1] + lb[2]]}")
        if com in eqs:
            lp = loop_value(q, eqs[com], c)
            if lp is None:
                rep.verdict(None, "levels", w, pp(eqs[com], 3))
                continue
            header, inits, steps = lp
            cur = c.strip(eqs[com])
            rep.verdict(path_loop(q, an, header, proof), "levels", w, "")
            rep.verdict(all(c(i) == {} for i in inits), "empty-start", w, f"{[pp(i, 3) for i in inits]}")
            for s in steps:
                p = c(s)
                ds = {x for k in p for x in k if x.op == "gad" and x.args[0] == "digest"}
                if len(ds) != 1:
                    rep.verdict(None, "level", w, poly_text(p))
                    continue
                d = ds.pop()
                dg = [e for e in an.events if last(e) == "digest"]
                calls = [x for x in find(q, s, lambda x: x.op == "call" and nm(x) == "digest", False)]
                if not calls:
                    rep.verdict(None, "level", w, poly_text(p))
                    continue
                level(rep, q, an, c, "level", w, calls[0], cur, header, proof)
                zs = {x for k in p for x in k} - {d}
                lab = d.args[1].args if d.args[1].op == "arr" else ()
                want = {T("gad", "is_zero", x) for x in lab}
                if len(zs) == 1:
                    z = zs.pop()
                    ok = p == padd(one(d), pmul(one(z), one(d)), -1)
                    rep.verdict(ok, "collapse-selects", w, poly_text(p))
                    if z.args[0] == "logic_and_all" and z.args[1].op == "arr":
                        rep.verdict(set(z.args[1].args) == want, "collapse", w, f"a node is empty when {pp(z, 5)}")
                    elif z.args[0] in ("logic_or", "logic_or_all", "is_zero"):
                        rep.verdict(False, "collapse", w, f"a node is empty when {pp(z, 5)}")
                    else:
                        rep.verdict(None, "collapse", w, pp(z, 5))
                elif zs and zs <= want:
                    m = {(): 1}
                    for z in zs:
                        m = pmul(m, one(z))
                    rep.verdict(zs == want and p == padd(one(d), pmul(m, one(d)), -1), "collapse", w, poly_text(p))
                else:
                    rep.verdict(False if not zs else None, "collapse", w, f"a level leaves {poly_text(p)}")


def m08_vars(rep, prog):
    for name in ("create_membership_proof_variable", "create_non_membership_proof_variable"):
        for fn in prog.find(C, name):
            an, q = rep.analyse(prog, fn, opaque=gadget_op(*CIRCUIT))
            w = fn.path
            c = Circ(q)
            pos, pr = arg(fn, 2), arg(fn, 3)
            for v in [v for _, v in returned(q, ok_exits(an))]:
                g = parts_of(v)
                m = q.norm(g.get("node_vars", v)) if g else None
                if m is None or m.op != "map":
                    rep.verdict(None, "variables", w, pp(v, 4))
                    continue
                dom = q.norm(m.args[0])
                ok = None
                vals = lambda x: nm(x) == "path_values" and x.args[2] is pr or x is f(pr, "0")
                ht = lambda x: nm(x) == "height" and x.args[2] is pr or x.op == "len" and vals(q.norm(x.args[0])) or nm(x) == "len" and vals(q.norm(x.args[2]))
                if dom.op == "zip":
                    a, b = q.norm(dom.args[0]), q.norm(dom.args[1])
                    if nm(b) == "to_traversal_path":
                        a, b = b, a
                    if nm(a) == "to_traversal_path":
                        ok = peel(q, a.args[2], "borrow") is pos and ht(q.norm(a.args[3])) and vals(b)
                        if not ok and not all(pure(x, ("to_traversal_path", "height", "path_values")) for x in (a, b)) and b.op not in ("skip", "take", "rev"):
                            ok = None
                    elif any(x.op in ("rev", "skip", "take") for x in (a, b)):
                        ok = False
                rep.verdict(ok, "variables-levels", w, pp(dom, 4))
                br = lambda x: x.op == "elem" and nm(q.norm(x.args[0])) == "to_traversal_path"
                sv = lambda x: x.op == "elem" and vals(q.norm(x.args[0]))
                for n in alts(q, m.args[1]):
                    n = q.norm(n)
                    n = q.norm(payload(n)) if n.op == "agg" and n.args[1] == "Ok" else n
                    if n.op == "field":
                        t = q.norm(n.args[0].args[0])
                        ts = [t] if t.op != "phi" or t.args[0] not in an.loops() else [y for y in an.phis[t].values() if y is not t and y.op != "undef"]
                        ns = [q.norm(payload(x)) for y in ts for x in alts(q, y) if x.op == "agg" and x.args[1] == "Ok"]
                    else:
                        ns = [n] if n.op == "agg" and n.args[1] != "Err" else []
                    if not ns:
                        rep.verdict(None, "variables", w, pp(n, 3))
                    for x in ns:
                        if x.op != "agg" or "is_left_child" not in parts_of(x):
                            rep.verdict(None, "variables", w, pp(x, 3))
                            continue
                        p = parts_of(x)
                        for i, k in enumerate(("sibling1", "sibling2")):
                            for y in alts(q, q.norm(p[k])):
                                kc = c.call(y)
                                ok = None
                                if kc is not None and nm(kc) == "create_variable":
                                    z = peel(q, kc.args[3], "borrow")
                                    ok = z.op == "index" and sv(q.norm(z.args[0])) and is_const(q.norm(z.args[1]), i)
                                    if not ok and not (z.op == "index" and q.norm(z.args[1]).op == "const" or pure(z, ("path_values",))):
                                        ok = None
                                elif kc is not None and nm(kc) == "zero":
                                    ok = "non_membership" in name or None
                                elif kc is not None and nm(kc) == "one":
                                    ok = False
                                rep.verdict(ok, "variables-siblings", w, f"{k} is {pp(y, 4)}")
                        for b, k in ((0, "is_left_child"), (2, "is_right_child")):
                            kc = c.call(c.strip(p[k]))
                            ok = None
                            if kc is not None and nm(kc) == "create_boolean_variable":
                                z = q.norm(kc.args[3])
                                if z.op == "bin" and z.args[0] == "Eq" and any(br(q.norm(y)) for y in z.args[1:]):
                                    ok = any(is_const(q.norm(y), b) for y in z.args[1:])
                                elif z.op == "bin" and z.args[0] in ("Ne", "Lt", "Le", "Gt", "Ge") and any(br(q.norm(y)) for y in z.args[1:]) and any(q.norm(y).op == "const" for y in z.args[1:]):
                                    t = {"Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}[z.args[0]]
                                    k1, k2 = (None if br(q.norm(y)) else q.norm(y).args[0] for y in z.args[1:])
                                    ok = [v for v in range(3) if t(v if k1 is None else k1, v if k2 is None else k2)] == [b]
                            elif kc is not None and nm(kc) in ("create_variable", "zero", "one"):
                                ok = False
                            rep.verdict(ok, "variables-flags", w, f"{k} is {pp(p[k], 4)}")
            # at most one flag
            ev = [e for e in an.events if last(e) == "enforce_bool"]
            best = False if not ev else None
            for e in ev:
                h = loop_of(an, e.node.id)
                p = c(e.args[1])
                ks = sorted(k[0].args[1] for k in p if len(k) == 1 and k[0].op == "field" and p[k] == 1)
                ok = len(p) == 2 and ks == ["is_left_child", "is_right_child"]
                if not ok:
                    ds = [x for k in p for x in k]
                    ok = len(p) == 2 and all(v == 1 for v in p.values()) and all(x.op == "gad" and x.args[0] == "create_boolean_variable" for x in ds)
                d = q.loop_domain(h) if h is not None else None
                if ok and h is not None and every_iteration(q, h, e.node.id) and (d is None or q.norm(d).op not in ("skip", "take", "stepby", "slice")):
                    best = True
            if best is None and all(all(x.op == "field" or x.op == "gad" for k in c(e.args[1]) for x in k) for e in ev):
                best = False
            rep.verdict(best, "one-branch", w, "both branch flags of a level can be set")
    for fn in prog.find(C, "create_commitment_variable") + prog.find(C, "create_root_variable"):
        an, q = rep.analyse(prog, fn, opaque=gadget_op())
        for v in [v for _, v in returned(q, an.exits()) if not (v.op == "agg" and v.args[1] == "Err")]:
            k = Circ(q).call(v)
            rep.verdict(True if k is not None and nm(k) == "create_variable" and peel(q, k.args[3], "borrow") is arg(fn, 2) else None, "commitment-variable", fn.path, pp(v, 3))
