"""jf-merkle-tree: digests, proof verification, tree construction, forgetting and remembering, lookups, bookkeeping and the circuit counterparts."""
from common import *

C = "jf_merkle_tree"
ARITY = T("kconst", "ARITY", ())
HASH = ("sponge_with_zero_padding", "sponge_no_padding", "sponge_with_bit_padding", "evaluate", "hash")
OPTION = "std::option::Option"


def last(e):
    return e.name.split("::")[-1]


def hashed(q, v):
    """(style, input) of the hash application whose result v is: ("field", sequence term) or ("bytes", chain of updates)"""
    v = q.norm(v)
    while v.op == "agg" and len(v.args) == 4 or v.op in ("conv", "cast"):
        v = q.norm(v.args[3] if v.op == "agg" else v.args[0])
    if v.op == "index" and is_const(v.args[1], 0):
        v = v.args[0]
        c = okof(v)
        v = c if c is not None else v
        if v.op == "call" and nm(v) in HASH:
            return "field", v.args[2], v
    if v.op == "call" and nm(v) == "finalize":
        ch = chain(q, v.args[2], lambda t: t.op == "call" and nm(t) in ("new", "default") and len(t.args) == 2)
        if ch is not None:
            return "bytes", ch, v
        return None
    if v.op == "call" and nm(v) == "digest" and len(v.args) == 3:
        return "field", v.args[2], v
    return None


def byte_items(q, ch):
    """what a chain of hasher updates absorbs, as sequence parts"""
    out = []
    for it in ch:
        if it[0] == "loop":
            out.append(("loop", it[1], byte_items(q, it[2]), it[3]))
        elif it[0] == "alt":
            out.append(("?", it[2]))
        elif it[0] in ("update", "chain_update", "write_all"):
            x = q.norm(it[1][1])
            s = serialised(q, x)
            out.append(("one", s if s is not None else x))
        elif it[0] in ("serialize_uncompressed", "serialize_compressed", "serialize_with_mode"):
            out.append(("one", q.norm(it[1][0])))
        else:
            out.append(("?", it[2]))
    return out


def sep_of(q, part):
    """constant of a domain separator"""
    if not part or part[0] != "one":
        return None
    t = q.norm(part[1])
    if t.op == "const":
        return ("const", t.args[0])
    if t.op == "call" and nm(t) in ("zero", "one", "default") and len(t.args) == 2:
        return ("const", {"zero": 0, "default": 0, "one": 1}[nm(t)])
    if t.op == "kconst":
        return ("const", t.args[0].split("::")[-1])
    if t.op == "conv" and t.args[0].op == "const":
        return ("const", t.args[0].args[0])
    return None


def covers_elem(q, items, e):
    """do the items contain the element (or all its parts)"""
    got = [q.norm(p[1]) for p in items if p[0] in ("one", "all")]
    if any(peel(q, g) is e for g in got):
        return True
    fs = {g.args[1] for g in got if g.op == "field" and g.args[0] is e}
    return fs


@check("M01", [C], """All implementations of the tree digest trait are enumerated. The hash input is reconstructed as a sequence (vectors, array stores tabulated for sizes 3 to 6, hasher
update chains). Decided: both digests start with a constant separator and the two constants differ; after it the inner digest absorbs every child once and in order; the leaf digest absorbs
the whole element and, except for the two byte-oriented digests documented as position-free, the position; the exported tree types instantiate.""", floor=10)
def m01(rep, prog):
    hid = lambda g: g.name in HASH
    inner, leaf = {}, {}
    for fn in prog.find(C, "digest", trait="DigestAlgorithm"):
        inner[impl_key(fn)] = fn
    for fn in prog.find(C, "digest_leaf", trait="DigestAlgorithm"):
        leaf[impl_key(fn)] = fn
    rep.verdict(len(inner) >= 6 and set(inner) == set(leaf), "impls", "DigestAlgorithm", f"implementations found: {sorted(inner)}")
    for k in sorted(set(inner) & set(leaf)):
        fn = inner[k]
        an, q = rep.analyse(prog, fn, opaque=hid)
        w = fn.path
        data = arg(fn, 1)
        sep = None
        for _, v in returned(q, ok_exits(an)):
            h = hashed(q, v)
            if h is None:
                rep.unk("inner-digest", w, pp(v, 5))
                continue
            its = q.seq(h[1]) if h[0] == "field" else byte_items(q, h[1])
            sep = sep_of(q, its[0]) if its else None
            rep.verdict(sep is not None if its and its[0][0] == "one" and is_fixed(q, its[0][1]) is not None else False, "separator-first", w, f"the inner digest starts with {items_show(its)}")
            rest = its[1:]
            rep.verdict(all_children(q, rest, data), "children", w, f"the inner digest absorbs {items_show(rest)}")
        fn = leaf[k]
        an, q = rep.analyse(prog, fn, opaque=hid)
        w = fn.path
        pos, el = arg(fn, 1), arg(fn, 2)
        nopos = any(x in k for x in ("Sha3Digest", "Keccak256Digest"))
        for _, v in returned(q, ok_exits(an)):
            h = hashed(q, v)
            if h is None:
                rep.unk("leaf-digest", w, pp(v, 5))
                continue
            if h[0] == "field" and q.seq(h[1]) and q.seq(h[1])[0][0] != "one":
                size = T("kconst", "INPUT_SIZE", ())
                tabs = [tab(q, h[1], {size: n}, {}) for n in range(3, 7)]
                if not all(isinstance(x, list) for x in tabs):
                    rep.verdict(None, "leaf-digest", w, pp(h[1], 6))
                    continue
                its = [("one", x) if isinstance(x, Term) else ("?", x) for x in tabs[0]]
                more = [[("one", x) if isinstance(x, Term) else ("?", x) for x in y] for y in tabs[1:]]
            else:
                its = q.seq(h[1]) if h[0] == "field" else byte_items(q, h[1])
                more = []
            for items in [its] + more:
                s2 = sep_of(q, items[0]) if items else None
                rep.verdict(False if s2 is None and items and not is_fixed(q, items[0][1] if items[0][0] == "one" else items[0][1]) else None if s2 is None or sep is None else s2 != sep,
                            "separators-differ", w, f"leaf and inner digests both start with {s2} / {sep}")
                ce = covers_elem(q, items, el)
                ok = True if ce is True else ({"0", "1"} <= ce if ce else None if any(p[0] == "?" for p in items) else False)
                rep.verdict(ok, "leaf-element", w, f"the leaf digest absorbs {items_show(items)}")
                if not nopos:
                    hit = any(p[0] == "one" and peel(q, p[1]) is pos for p in items)
                    rep.verdict(True if hit else None if any(p[0] == "?" for p in items) else False, "leaf-position", w, f"the leaf digest absorbs {items_show(items)}")


def is_fixed(q, t):
    """does the value not depend on the arguments"""
    t = q.norm(t) if isinstance(t, Term) else None
    if t is None:
        return None
    return True if not find(q, t, lambda x: x.op in ("arg", "elem", "index")) else None


def impl_key(fn):
    return f"{fn.self}|{fn.traitref or fn.trait}"


def items_show(its):
    return "[" + ", ".join((f"{p[0]} {pp(p[1], 4)}" if isinstance(p[1], Term) else str(p)) if p[0] != "loop" else f"per {pp(p[1], 3)}: {items_show(p[2])}" for p in its) + "]"


def all_children(q, rest, data):
    """the rest of the hash input is exactly every child, in order"""
    if len(rest) != 1:
        return None if any(p[0] == "?" for p in rest) else False
    p = rest[0]
    if p[0] == "all":
        t = q.norm(p[1])
        return True if t is data else False if t.op in ("slice", "skip", "take", "rev") else None
    if p[0] == "each":
        body = peel(q, p[2], "as_ref", "borrow")
        return True if q.norm(p[1]) is data and (body.op == "elem" and body.args[0] is data) else False if q.norm(p[1]).op in ("rev", "skip", "take", "slice") else None
    if p[0] == "loop":
        d = q.norm(p[1]) if p[1] is not None else None
        if d is not data:
            return False if d is not None and d.op in ("rev", "skip", "take", "slice") else None
        b = p[2]
        if len(b) != 1 or b[0][0] != "one":
            return None if any(x[0] == "?" for x in b) else False
        x = peel(q, b[0][1], "as_ref", "borrow")
        while x.op == "field" and x.args[0].op in ("elem", "field"):
            x = x.args[0]
        return True if x.op == "elem" and x.args[0] is data else False if x.op == "const" else None
    return None


# ---------------------------------------------------------------- verification
def somearg(fn, i, x=None):
    a = arg(fn, i)
    return T("agg", OPTION, "Some", (("0",), True), f(T("as", a, "Some"), "0")), T("agg", OPTION, "None", ((), True))


@check("M02", [C], """Membership and absence verification, analysed once with an element and once without. Decided: acceptance requires equality of the recomputed root with the commitment;
the recomputed root is the fold over all levels of (path of the position for exactly that many levels, siblings) from the digest of that position and element (or the empty value); at each
level the digest input, tabulated for arity 2 to 4 and every branch, is the siblings with the running value inserted at the branch; levels whose sibling count is not arity-1 are refused
(an absence proof may have empty levels, which give the empty value), checked on every path through an iteration; the trait methods pass their arguments unchanged.""", floor=6)
def m02(rep, prog):
    fn = rep.anchor(prog, C, "verify_merkle_proof")
    if fn is not None:
        com, pos, proof = arg(fn, 1), arg(fn, 2), f(arg(fn, 4), "0")
        some, none = somearg(fn, 3)
        for tag, at in (("member", some), ("absence", none)):
            an, q = rep.analyse(prog, fn, argterms=[None, None, at, None])
            w = f"{fn.path} ({tag})"
            facts, pts = accept_facts(an, q)
            if not pts:
                rep.fail("accepts", w, "no proof is ever accepted")
                continue
            X = None
            for fa in facts:
                if fa.pred[0] == "Eq" and com in fa.pred[1:3] and fa.must:
                    X = fa.pred[2] if fa.pred[1] is com else fa.pred[1]
            if X is None:
                rel = [fa for fa in facts if any(isinstance(x, Term) and find(q, x, lambda t: t is com) for x in fa.pred[1:])]
                rep.verdict(None if rel and any(fa.must and fa.pred[0] not in ("Ne", "Eq") for fa in rel) else False, "root", w, "acceptance does not require the recomputed root to equal the commitment")
                continue
            rep.ok("root", w)
            xs = alts(q, X)
            if len(xs) != 1 or q.loop_phi(xs[0]) is None:
                rep.unk("fold", w, pp(X, 5))
                continue
            h, init, step = q.loop_phi(xs[0])
            ph = xs[0]
            dom = q.norm(q.loop_domain(h)) if q.loop_domain(h) is not None else None
            path = None
            if dom is not None and dom.op == "zip":
                a, b = dom.args[:2]
                if nm(b) == "to_traversal_path":
                    a, b = b, a
                if nm(a) == "to_traversal_path" and b is q.norm(proof):
                    path = a
            if path is None:
                bad = dom is not None and find(q, dom, lambda x: x.op in ("rev", "skip", "take", "step") and find(q, x.args[0], lambda y: y is q.norm(proof) or nm(y) == "to_traversal_path", False), False)
                rep.verdict(False if bad else None, "fold", w, f"levels {pp(dom, 5) if dom is not None else '?'}")
                continue
            rep.verdict(path.args[2] is pos and q.norm(path.args[3]) is q.nlen(proof), "path", w, f"the path used is {pp(path, 4)}")
            vals = None
            for n in an.nodes:
                pass
            iv = {q.norm(x) for i in init for x in alts(q, i)}
            if tag == "member":
                c = okof(next(iter(iv))) if len(iv) == 1 else None
                good = c is not None and nm(c) == "digest_leaf" and c.args[2] is pos and c.args[3] is payload(at)
                rep.verdict(True if good else False if c is not None and nm(c) == "digest_leaf" or len(iv) == 1 and nm(next(iter(iv))) == "default" else None, "start", w, f"the fold starts from {[pp(x, 4) for x in iv]}")
            else:
                rep.verdict(True if len(iv) == 1 and nm(next(iter(iv))) == "default" else None, "start", w, f"the fold starts from {[pp(x, 4) for x in iv]}")
            # one level
            body, lat = an.loops()[h]
            for l in lat:
                v = an.phis[ph].get(l)
                if v is None:
                    continue
                for cs, x in q.cases(an.nodes[l], v) or [((), v)]:
                    x = q.norm(x)
                    if contradicts(q, x, l):
                        continue
                    conds = list(cs) + q.node_conds(l)
                    if nm(x) == "default" and len(x.args) == 2:
                        emp = any(level_empty(q, c, lab, proof) for c, lab in conds)
                        rep.verdict(emp, "empty-level", w, "a level with siblings is replaced by the empty value")
                        continue
                    c = okof(x)
                    if c is None or nm(c) != "digest":
                        rep.verdict(False if x is ph else None, "level", w, f"a level yields {pp(x, 5)}")
                        continue
                    level(rep, q, w, c.args[2], dom, path, proof, ph)
            # sibling counts
            cl = lambda a: "a" if a is ARITY else "n" if a.op == "len" and a.args[0].op in ("elem", "index") and a.args[0].args[0] is q.norm(proof) else None
            hs = [x for x in an.loops() if is_levels(q, x, proof) and all(an.must_pass(x, [p[0]]) for p in pts)]
            bad = None
            for a in (2, 3, 4):
                for n in range(0, 6):
                    rs = [iteration_ok(q, x, cl, {"a": a, "n": n}) for x in hs]
                    acc = all(r is not False for r in rs)
                    want = n == a - 1 or (tag == "absence" and n == 0)
                    if acc and not want and None not in rs:
                        bad = f"a level with {n} siblings is accepted for arity {a}"
                    if not acc and want:
                        bad = f"a level with {n} siblings is refused for arity {a}"
            rep.verdict(not bad if hs else False, "sibling-count", w, bad or "no check of the number of siblings per level")
    wrappers(rep, prog)
    height(rep, prog)


def is_levels(q, h, proof):
    d = q.loop_domain(h)
    if d is None:
        return False
    d = q.norm(d)
    P = q.norm(proof)
    return d is P or d.op == "zip" and P in d.args[:2] or d.op == "enumerate" and d.args[0] is P


def level_empty(q, c, lab, proof):
    c = q.norm(c)
    P = q.norm(proof)
    isl = lambda a: a.op == "len" and a.args[0].op in ("elem", "index") and a.args[0].args[0] is P
    if c.op == "bin" and c.args[0] in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge"):
        at = q.iatoms(c)
        if len(at) == 1 and isl(list(at)[0]):
            a = list(at)[0]
            sat = [n for n in range(0, 5) if (ieval(q, c, {a: n}) == int(lab) if not isinstance(lab, tuple) else ieval(q, c, {a: n}) not in lab[1])]
            return sat == [0]
    return nm(c) == "is_empty" and lab == 1


def level(rep, q, w, data, dom, path, proof, val):
    br = [x for x in find(q, data, lambda t: t.op in ("elem", "index") and t.args[0] is q.norm(path), False)]
    vs = [x for x in find(q, data, lambda t: t.op in ("elem", "index") and t.args[0] is q.norm(proof), False)]
    if len(set(br)) != 1 or len(set(vs)) != 1:
        rep.unk("level", w, pp(data, 5))
        return
    b, v = br[0], vs[0]
    bad, unk = None, False
    for a in (2, 3, 4):
        for k in range(a):
            got = tab(q, data, {ARITY: a, b: k, q.nlen(v): a - 1}, {v: a - 1})
            want = [("at", v, i) for i in range(k)] + [val] + [("at", v, i) for i in range(k, a - 1)]
            r = entries_are(q, got, want)
            if r is None:
                unk = True
            elif not r:
                bad = f"arity {a}, branch {k}: digest of {[x if isinstance(x, str) else (x[2] if isinstance(x, tuple) and len(x) > 2 else pp(x, 2) if isinstance(x, Term) else '?') for x in got] if isinstance(got, list) else got}"
                break
    rep.verdict(False if bad else None if unk else True, "level", w, bad or pp(data, 5))


TREES = ("MerkleTree", "LightWeightMerkleTree", "UniversalMerkleTree")


def wrappers(rep, prog):
    hid = lambda g: g.name in ("verify_merkle_proof", "verify_merkle_range_proof")
    for t in TREES:
        fn = rep.anchor(prog, C, "verify", t)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=hid)
        delegated(rep, an, q, fn, "verify_merkle_proof", [arg(fn, 1), arg(fn, 2), ("Some", arg(fn, 3)), arg(fn, 4)], "verify-args")
    fn = rep.anchor(prog, C, "non_membership_verify", "UniversalMerkleTree")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=hid)
        delegated(rep, an, q, fn, "verify_merkle_proof", [arg(fn, 1), arg(fn, 2), ("None", None), arg(fn, 3)], "verify-args")


def delegated(rep, an, q, fn, name, args, facet):
    """the function returns the result of a call with these arguments"""
    w = fn.path
    for e in an.exits():
        for _, v in case_list(q, e):
            v = q.norm(v)
            c = v
            if v.op == "agg" and v.args[1] == "Ok" and okof(payload(v)) is not None:
                c = okof(payload(v))
            elif v.op == "agg" and v.args[1] == "Err":
                continue
            if nm(c) != name:
                rep.verdict(False if v.op == "agg" and not find(q, v, lambda t: nm(t) == name) else None, facet, w, f"returns {pp(v, 5)}")
                continue
            rep.verdict(args_match(q, c, args), facet, w, f"calls {pp(c, 5)}")


def args_match(q, c, args):
    for got, want in zip(c.args[2:], args):
        got = q.norm(got)
        if isinstance(want, tuple):
            if got.op != "agg" or got.args[1] != want[0]:
                return False if got.op == "agg" else None
            if want[1] is not None and q.norm(payload(got)) is not q.norm(want[1]):
                return False if pure(payload(got)) else None
        elif want is not None and got is not q.norm(want):
            return False if pure(got) else None
    return True


def height(rep, prog):
    """an absence proof is only meaningful for the height of the tree; acceptance must relate the number of levels to it"""
    fn = rep.anchor(prog, C, "non_membership_verify", "UniversalMerkleTree")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn)
    facts, _ = accept_facts(an, q)
    proof = f(arg(fn, 3), "0")
    L = q.nlen(proof)

    def m(p):
        if p[0] != "Eq" or L not in p[1:3]:
            return None if isinstance(p[1], Term) and L in q.iatoms(p[1]) and p[0] not in ("Eq", "Ne") else False
        o = p[2] if p[1] is L else p[1]
        return not find(q, o, lambda t: t is arg(fn, 3))
    expect(rep, facts, "absence-height", fn.path, m, "an absence proof with another number of levels than the tree is accepted: the tree height is not an input of the verification")


# ---------------------------------------------------------------- range proofs
@check("M03", [C], """Range proof verification and generation. Decided for verification: acceptance requires equally many indices and elements, at least one, equally many left and right
levels, at every level as many left (right) siblings as the path of the first (last) index prescribes, consecutive indices, a digest input that is a multiple of the arity at every level,
a single remaining value and its equality with the commitment; leaves are the digests of corresponding indices and elements; a level digests left siblings, running values and right siblings
in this order in groups of the arity. For generation: the children visited run from the first branch to the last, recursion keeps the boundary flags only at the ends, and the stored siblings
are those before the first and after the last branch.""", floor=4)
def m03(rep, prog):
    fn = rep.anchor(prog, C, "verify_merkle_range_proof")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        com, ind, els, pr = (arg(fn, i) for i in range(1, 5))
        lb, rb = f(pr, "lbound"), f(pr, "rbound")
        facts, pts = accept_facts(an, q)
        n = q.nlen
        eq = lambda a, b: (lambda p: p[0] == "Eq" and {p[1], p[2]} == {a, b})
        expect(rep, facts, "range-lengths", w, eq(n(ind), n(els)), "indices and elements of different lengths are accepted")
        expect(rep, facts, "range-empty", w, lambda p: p[0] in ("Ne", "Gt", "Ge", "Lt") and n(ind) in p[1:3] and any(isinstance(x, Term) and is_const(x, (0, 1)) for x in p[1:3]) or p[0] == "is" and p[2] == frozenset({"Some"}) and ind in p[1].args,
               "an empty range is accepted")
        expect(rep, facts, "range-levels", w, eq(n(lb), n(rb)), "left and right bounds with different numbers of levels are accepted")
        one = [fa for fa in facts if fa.must and fa.pred[0] == "Eq" and any(isinstance(x, Term) and is_const(x, 1) for x in fa.pred[1:3])]
        X = None
        for fa in facts:
            if fa.must and fa.pred[0] == "Eq" and com in fa.pred[1:3]:
                X = fa.pred[2] if fa.pred[1] is com else fa.pred[1]
        if X is None:
            rep.verdict(False if not any(com in [y for x in fa.pred[1:3] if isinstance(x, Term) for y in an.subterms(x, False)] and fa.pred[0] not in ("Eq", "Ne") for fa in facts) else None, "range-root", w,
                        "acceptance does not require the recomputed root to equal the commitment")
        else:
            good = X.op == "index" and is_const(X.args[1], 0)
            rep.verdict(True if good else False if X.op == "index" and X.args[1].op == "const" else None, "range-root", w, pp(X, 4))
            if good:
                vals = X.args[0]
                xs = alts(q, vals)
                expect(rep, facts, "range-single", w, lambda p: p[0] == "Eq" and any(isinstance(x, Term) and is_const(x, 1) for x in p[1:3]) and any(isinstance(x, Term) and x is q.nlen(vals) for x in p[1:3]),
                       "several remaining values are accepted")
                r = q.loop_phi(xs[0]) if len(xs) == 1 and xs[0].op == "phi" else None
                if r is None:
                    rep.unk("range-fold", w, pp(vals, 4))
                else:
                    range_fold(rep, an, q, w, r, xs[0], facts, ind, els, lb, rb)
        # shape of the bounds
        shape(rep, an, q, w, facts, ind, lb, rb)
    for t in TREES:
        for fn in prog.find(C, "verify_range_proof", t):
            an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "verify_merkle_range_proof")
            delegated(rep, an, q, fn, "verify_merkle_range_proof", [arg(fn, i) for i in range(1, 5)], "range-args")
        for fn in prog.find(C, "range_lookup", t):
            an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "range_lookup_internal")
            s = arg(fn, 1)
            tp = lambda p: (lambda x: nm(x) == "to_traversal_path" and x.args[2] is p and q.norm(x.args[3]) is f(s, "height"))
            for e in an.exits():
                for _, v in case_list(q, e):
                    v = q.norm(v)
                    if nm(v) != "range_lookup_internal":
                        rep.unk("range-lookup-args", fn.path, pp(v, 4))
                        continue
                    a = [q.norm(x) for x in v.args[2:]]
                    rep.verdict(a[0] is f(s, "root") and a[1] is f(s, "height") and tp(arg(fn, 2))(a[2]) and tp(arg(fn, 3))(a[3]) and is_const(a[4], 1) and is_const(a[5], 1), "range-lookup-args", fn.path, pp(v, 5))
    range_lookup(rep, prog)


def range_fold(rep, an, q, w, r, ph, facts, ind, els, lb, rb):
    h, init, step = r
    dom = q.loop_domain(h)
    dom = q.norm(dom) if dom is not None else None
    ok = dom is not None and dom.op == "zip" and set(dom.args[:2]) == {q.norm(lb), q.norm(rb)}
    rep.verdict(True if ok else None, "range-all-levels", w, pp(dom, 4) if dom is not None else "?")
    iv = {q.norm(x) for i in init for x in alts(q, i)}
    x = next(iter(iv)) if len(iv) == 1 else None
    ew = elementwise(q, strip_oks(x)) if x is not None else None
    c = q.norm(ew[1]) if ew else None
    c = okof(c) if c is not None and okof(c) is not None else c
    if c is None or nm(c) != "digest_leaf":
        rep.unk("range-leaves", w, pp(x, 5) if x is not None else "?")
    else:
        iof = lambda t, v: (lambda y: y.op in ("elem", "index") and y.args[0] is v)(peel(q, t, "borrow"))
        same_site = lambda a, b: peel(q, a, "borrow").args[1] == peel(q, b, "borrow").args[1]
        good = iof(c.args[2], ind) and iof(c.args[3], els) and same_site(c.args[2], c.args[3])
        rep.verdict(True if good else False if pure(c.args[2], ("borrow",)) and pure(c.args[3], ("borrow",)) else None, "range-leaves", w, pp(c, 5))
    sv = {q.norm(y) for s in step for y in alts(q, s)}
    y = next(iter(sv)) if len(sv) == 1 else None
    ew = elementwise(q, strip_oks(y)) if y is not None else None
    c = q.norm(ew[1]) if ew else None
    c = okof(c) if c is not None and okof(c) is not None else c
    d = q.norm(ew[0]) if ew else None
    if c is None or nm(c) != "digest" or d is None or d.op not in ("chunks", "chunks_exact"):
        rep.unk("range-level", w, pp(y, 5) if y is not None else "?")
        return
    rep.verdict(d.args[1] is ARITY and c.args[2].op == "elem" and c.args[2].args[0] is d, "range-groups", w, f"groups {pp(d, 3)}")
    parts = q.seq(d.args[0])
    parts = [("all", ph) if p[0] == "?" and p[1] is ph else p for p in parts]
    got = [q.norm(p[1]) for p in parts if p[0] == "all"]
    want = [lambda t: t.op in ("elem", "index") and t.args[0] is q.norm(lb), lambda t: t is ph, lambda t: t.op in ("elem", "index") and t.args[0] is q.norm(rb)]
    good = len(parts) == 3 == len(got) and all(g(t) for g, t in zip(want, got))
    rep.verdict(True if good else None if any(p[0] == "?" for p in parts) else False, "range-level", w, f"a level digests {items_show(parts)}")
    total = q.nlen(d.args[0])
    expect(rep, facts, "range-multiple", w, lambda p: p[0] == "Eq" and any(isinstance(z, Term) and is_const(z, 0) for z in p[1:3]) and any(isinstance(z, Term) and z.op == "bin" and z.args[0] == "Rem" and z.args[2] is ARITY for z in p[1:3])
           or p[0] == "true" and p[1].op == "iop" and p[1].args[0] == "is_multiple_of" and p[1].args[2] is ARITY, "a level whose length is not a multiple of the arity is accepted")


def strip_oks(t):
    while t is not None and t.op in ("oks", "collectR") or t is not None and t.op == "field" and okof(t) is not None and okof(t).op == "collectR":
        t = t.args[0] if t.op in ("oks", "collectR") else okof(t).args[0]
    return t


def shape(rep, an, q, w, facts, ind, lb, rb):
    """per-level sibling counts follow the paths of the first and last index; indices are consecutive"""
    P = lambda t: find(q, t, lambda x: nm(x) == "to_traversal_path", True)

    def counts(v, sign, end):
        def m(p):
            if p[0] not in ("Eq", "true") or not p[1].op:
                return False
            ts = [x for x in p[1:3] if isinstance(x, Term)]
            ln = [y for t in ts for y in find(q, t, lambda x: x.op == "len" and x.args[0].op in ("elem", "index") and x.args[0].args[0] is q.norm(v), False)]
            if not ln or not any(P(t) for t in ts):
                return False
            if p[0] != "Eq" or len(ts) != 2:
                return None
            d, c = lin_sub(lin(q, ts[0]), lin(q, ts[1]))
            if d.get(ln[0], 0) < 0:
                d, c = {k: -x for k, x in d.items()}, -c
            dig = [k for k in d if k.op == "index" and P(k)]
            rest = set(d) - set(dig) - {ln[0]}
            if len(dig) != 1:
                return None
            pth = q.norm(dig[0].args[0])
            which = is_const(q.norm(pth.args[1]), 0) if pth.op == "index" else None
            last_ = q.norm(pth.args[1]).op == "fromend" if pth.op == "index" else None
            if sign < 0:
                ok = d == {ln[0]: 1, dig[0]: -1} and c == 0
            else:
                ok = d == {ln[0]: 1, dig[0]: 1, ARITY: -1} and c == 1
            good = which if end == "first" else last_
            return True if ok and good else False if rest <= {ARITY} and (which or last_) else None
        return m
    expect(rep, facts, "range-left", w, counts(lb, -1, "first"), "the number of left siblings is not tied to the first index")
    expect(rep, facts, "range-right", w, counts(rb, 1, "last"), "the number of right siblings is not tied to the last index")
    # consecutive: adding one to the digits of an index gives the digits of the next one, without a carry out
    pair = lambda t: find(q, t, lambda x: x.op == "windows" or x.op == "zip" and all(P(y) for y in x.args[:2]), True) and P(t)
    rel = [fa for fa in facts if fa.must and not (fa.pred[0] == "true" and fa.pred[1].op == "more") and any(isinstance(x, Term) and pair(x) for x in fa.pred[1:3])]
    if not rel:
        rep.verdict(False, "range-consecutive", w, "indices that are not consecutive are accepted")
        return
    for fa in rel:
        if fa.pred[0] != "Eq":
            continue
        for a, b in (fa.pred[1:3], fa.pred[2:0:-1]):
            b = q.norm(b)
            if not (b.op == "bin" and b.args[0] == "Rem" and q.norm(b.args[2]) is ARITY and q.norm(b.args[1]).op == "bin" and q.norm(b.args[1]).args[0] == "Add"):
                continue
            sm = q.norm(b.args[1])
            for c, x in (sm.args[1:3], sm.args[2:0:-1]):
                c, x, a = q.norm(c), q.norm(x), q.norm(a)
                lp = q.loop_phi(c) if c.op == "phi" else None
                if lp is None:
                    continue
                digits = x.op == a.op == "elem" and all(y.args[0].op == "index" and q.norm(y.args[0].args[0]).op == "elem" for y in (x, a))
                order = digits and is_const(q.norm(x.args[0].args[1]), 0) and is_const(q.norm(a.args[0].args[1]), 1)
                carry = all(is_const(q.norm(i), 1) for i in lp[1]) and all(q.norm(s).op == "bin" and q.norm(s).args[0] == "Div" and set(map(q.norm, q.norm(s).args[1:])) == {sm, ARITY} for s in lp[2])
                out = any(f2.must and f2.pred[0] == "Eq" and c in f2.pred[1:3] and any(isinstance(z, Term) and is_const(z, 0) for z in f2.pred[1:3]) for f2 in facts)
                rep.verdict(None if not digits else bool(order and carry and out), "range-consecutive", w, "the successor test of the indices is wrong" if not out else f"carry {[pp(z, 3) for z in lp[1] + lp[2]]}")
                return
    rep.verdict(None, "range-consecutive", w, "")


def range_lookup(rep, prog):
    fn = rep.anchor(prog, C, "range_lookup_internal", "MerkleNode")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "value")
    w = fn.path
    s, ht, lb, rb, lo, ro = (arg(fn, i) for i in range(1, 7))
    ch = f(T("as", s, "Branch"), "children")
    hm = T("bin", "Sub", ht, const(1))
    rec = [e for e in an.events if last(e) == fn.name]
    if not rec:
        rep.fail("range-recursion", w, "children are not visited")
        return
    kf = KForm(q)
    for e in rec:
        a = [q.norm(x) for x in e.args]
        c0 = a[0]
        if c0.op not in ("index", "elem"):
            rep.unk("range-recursion", w, pp(c0, 4))
            continue
        rep.verdict(True if q.norm(a[1]) is q.norm(hm) and a[2] is lb and a[3] is rb else False if all(pure(x) for x in a[1:4]) else None, "range-recursion", w, f"recursion {pp(e.args[1], 3)}, {pp(a[2], 3)}, {pp(a[3], 3)}")
        h = loop_of(an, e.node.id)
        d = q.loop_domain(h) if h is not None else None
        d = q.norm(d) if d is not None else None
        if d is None or d.op != "rangei" and not (d.op == "agg" and "Range" in d.args[0]):
            rep.unk("range-visit", w, pp(d, 4) if d is not None else "?")
            continue
        l, r = (d.args[0], d.args[1]) if d.op == "rangei" else (d.args[3], d.args[4])
        dl, dr = endpoint(q, l, lb, lo, hm), endpoint(q, r, rb, ro, hm)
        zero = lambda t: is_const(t, 0)
        lastc = lambda t: cansum(kf, t) is cansum(kf, T("bin", "Sub", q.nlen(ch), const(1)))
        if d.op != "rangei":
            r = q.norm(r)
            if r.op == "bin" and r.args[0] == "Add" and is_const(q.norm(r.args[2]), 1):
                r = q.norm(r.args[1])
                dr = endpoint(q, r, rb, ro, hm)
            elif dr is not None and dr[0] and all(lastc(x) for x in dr[1]):
                rep.verdict(False, "range-visit", w, "the last child of the range is not visited")
                continue
            else:
                rep.unk("range-visit", w, pp(d, 4))
                continue
        rep.verdict(None if dl is None else dl[0] and all(zero(x) for x in dl[1]), "range-first", w, f"the first child visited is {pp(l, 4)}")
        rep.verdict(None if dr is None else dr[0] and all(lastc(x) for x in dr[1]), "range-last", w, f"the last child visited is {pp(r, 4)}")
        conds = q.node_conds(e.node.id)
        for k, flag, end in ((4, lo, l), (5, ro, r)):
            x = a[k]
            have = {lab for c, lab in conds if q.norm(c) is flag}
            if have == {0} and x.op == "const":
                rep.verdict(is_const(x, 0), "range-flags", w, "a child is treated as a boundary of a range whose boundary is elsewhere")
            elif x.op == "bin" and x.args[0] == "Eq" and have == {1}:
                it = [y for y in map(q.norm, x.args[1:]) if y.op in ("elem", "ridx") and y is q.norm(c0.args[1])]
                ot = [y for y in x.args[1:] if q.norm(y) not in it]
                rep.verdict(True if it and ot and (q.norm(ot[0]) is q.norm(end) or q.an.simp(ot[0]) is q.an.simp(end) or same_end(q, ot[0], end)) else False, "range-flags", w, f"boundary flag {pp(x, 4)}")
            else:
                rep.verdict(False if x.op == "const" and have == {1} or x is flag else None, "range-flags", w, f"boundary flag {pp(x, 4)}")
    # what is collected
    n_ok = 0
    for e in an.exits():
        for cs, v in outcomes(q, e):
            v = q.norm(v)
            if v.op != "agg" or v.args[1] != "Ok":
                continue
            ie, pr = q.norm(v.args[3]), q.norm(v.args[4])
            if ie.op != "agg" or pr.op != "agg" or len(pr.args) != 5:
                rep.unk("range-collect", w, pp(v, 4))
                continue
            for x, nmx, comp in ((ie.args[3], "pos", ("0", "0")), (ie.args[4], "elem", ("0", "1"))):
                x = q.norm(x)
                xs = array_of(x)
                if xs is not None:
                    rep.verdict(len(xs) == 1 and q.norm(xs[0]) is f(T("as", s, "Leaf"), nmx), "range-leaf", w, f"a leaf yields {pp(x, 3)}")
                    continue
                lp = q.loop_phi(x) if x.op == "phi" else None
                if lp is None:
                    rep.unk("range-collect", w, pp(x, 4))
                    continue
                n_ok += 1
                for st in {y for z in lp[2] for y in alts(q, q.norm(z))}:
                    st = q.norm(st)
                    add = None
                    if st is x:
                        rep.verdict(False, "range-collect", w, "a child is passed over")
                        continue
                    if st.op == "ext" and st.args[0] is x:
                        add = q.norm(st.args[1])
                    ok = add is not None and okof_or(add, fn.name, q) is not None and add.op == "field" and (add.args[0].args[1] if add.args[0].op == "field" else None, add.args[1]) == comp
                    rep.verdict(True if ok else None if add is None else False, "range-collect", w, f"collected {pp(st, 5)}")
            for x, nmx in ((pr.args[3], "lbound"), (pr.args[4], "rbound")):
                x = q.norm(x)
                x = q.norm(x.args[0]) if x.op == "push" else x
                lp = q.loop_phi(x) if x.op == "phi" else None
                if lp is None:
                    none = nm(x) == "default" or array_of(x) == []
                    rep.verdict(False if none and q.norm(ie.args[3]).op == "phi" else True if none else None, "range-bounds", w, f"{nmx} is {pp(x, 4)}")
                    continue
                vs = {y for st in lp[2] for y in alts(q, st)} - {x}
                ok = all(y.op == "field" and y.args[1] == nmx and okof_or(y, fn.name, q) is not None for y in map(q.norm, vs))
                rep.verdict(ok and bool(vs), "range-bounds", w, f"{nmx} of a branch is taken from {[pp(y, 4) for y in vs]}")
    rep.verdict(n_ok >= 2 or None, "range-collect", w, "")
    # siblings kept at the boundaries
    pushes = [e for e in an.events if last(e) == "push"]
    got = {"l": False, "r": False}
    for e in pushes:
        x = q.norm(e.args[1])
        if x.op == "map" and nm(q.norm(x.args[1])) == "value":
            x = x.args[0]
        if x.op in ("take", "skip"):
            x = T("slice", x.args[0], const(0), x.args[1]) if x.op == "take" else T("slice", x.args[0], x.args[1], T("end"))
        if x.op == "slice" and q.norm(x.args[0]) is q.norm(ch):
            if is_const(x.args[1], 0) and x.args[2].op != "end":
                ep = endpoint(q, x.args[2], lb, lo, hm)
                got["l"] = True if ep is not None and ep[0] else None if ep is None and got["l"] is not True else got["l"]
            elif x.args[2].op == "end":
                t = x.args[1]
                if t.op == "bin" and t.args[0] == "Add" and const(1) in t.args[1:]:
                    t = [z for z in t.args[1:] if z is not const(1)][0]
                    ep = endpoint(q, t, rb, ro, hm)
                    got["r"] = True if ep is not None and ep[0] else None if ep is None and got["r"] is not True else got["r"]
        elif x.op in ("slice", "rev") and q.norm(x.args[0]).op in ("slice", "rev") and q.norm(q.norm(x.args[0]).args[0]) is q.norm(ch):
            continue
        elif not (x.op == "slice"):
            for k in got:
                got[k] = None if got[k] is False else got[k]
    rep.verdict(got["l"], "range-left-siblings", w, "the siblings before the first branch are not collected")
    rep.verdict(got["r"], "range-right-siblings", w, "the siblings after the last branch are not collected")


def same_end(q, a, b):
    """may two joins stand for the same value (a loop-invariant copy)"""
    a, b = q.an.simp(a), q.an.simp(b)
    if a.op == "phi" and a.args[0] in q.an.loops():
        vs = {q.an.simp(v) for v in q.an.phis[a].values()} - {a}
        return vs == {b}
    return False


def endpoint(q, t, bound, flag, hm):
    """(is the boundary digit used exactly when the flag is set, other values) of a range end"""
    t = q.an.simp(t)
    if t.op != "phi":
        return None
    cs = q.cases(q.an.nodes[t.args[0]], t)
    if cs is None:
        return None
    on, off, others = True, True, []
    for c, v in cs:
        v = q.norm(v)
        lab = [l for x, l in c if q.norm(x) is flag]
        if not lab:
            return None
        if lab[0] == 1:
            on = on and v.op == "index" and v.args[0] is bound and q.norm(v.args[1]) is q.norm(hm)
        else:
            others.append(v)
    return on, others


# ---------------------------------------------------------------- nodes
NODE = "MerkleNode"
NODE_OPAQUE = ("value", "digest_branch", "is_forgotten")


def parts_of(v):
    """field name → value of a constructed node"""
    names = v.args[2][0] if isinstance(v.args[2], tuple) else ()
    return dict(zip(names, v.args[3:]))


def node_lint(rep, an, q, fn):
    """every node constructed in the function carries the digest of what it contains"""
    w = fn.path
    S = arg(fn, 1)
    for n, v in an.built(NODE):
        v = q.norm(v)
        if v.op != "agg":
            continue
        kind, p = v.args[1], parts_of(v)
        g = lambda k: q.norm(p[k]) if k in p else None
        if kind == "Leaf":
            c = okof(g("value"))
            if c is not None and nm(c) == "digest_leaf":
                a, b = peel(q, c.args[2], "borrow"), peel(q, c.args[3], "borrow")
                ok = a is peel(q, g("pos"), "borrow") and b is peel(q, g("elem"), "borrow")
                rep.verdict(True if ok else False, "leaf-value", w, f"a leaf with position {pp(g('pos'), 3)} and element {pp(g('elem'), 3)} gets value {pp(c, 4)}")
            elif kept(g("value"), S, ("Leaf",)) and kept(g("pos"), S, ("Leaf",)) and kept(g("elem"), S, ("Leaf",)):
                rep.ok("leaf-value", w)
            else:
                rep.verdict(False if kept(g("value"), S, ("Leaf", "Branch", "ForgottenSubtree")) or nm(g("value")) == "default" else None, "leaf-value", w, f"leaf value {pp(g('value'), 5)}")
        elif kind == "Branch":
            branch_value(rep, an, q, fn, w, n, g("value"), g("children"), S)
        elif kind == "ForgottenSubtree":
            forgotten_value(rep, an, q, fn, w, n, v, g("value"), S)


def kept(t, S, kinds):
    return t is not None and t.op == "field" and t.args[0].op == "as" and t.args[0].args[0] is S and t.args[0].args[1] in kinds


def branch_value(rep, an, q, fn, w, n, value, children, S):
    c = okof(value)
    if c is not None and nm(c) == "digest_branch":
        d = q.norm(c.args[2])
        rep.verdict(True if d is children else None if not comparable(q, d, children) else False, "branch-value", w, f"the digest covers {pp(d, 5)}, the node keeps {pp(children, 5)}")
        return
    if c is not None and nm(c) == "digest":
        d = q.norm(c.args[2])
        rep.verdict(values_of(q, d, children), "branch-value", w, f"the digest covers {pp(d, 6)}, the node keeps {pp(children, 6)}")
        return
    if kept(value, S, ("Branch",)):
        base = f(T("as", S, "Branch"), "children")
        if children is base:
            rep.ok("branch-value", w)
            return
        st = stored(q, children)
        if st is not None and st[0] is base and okof_or(st[2], fn.name, q) is not None:
            if fn.name in ("forget_internal", "remember_internal"):
                rep.ok("branch-value", w)
                return
            vs = variant_at(q, n.id, st[2])
            rep.verdict(None if vs is None else vs == frozenset({"ForgottenSubtree"}), "branch-value", w, "a branch keeps its value although a child changed")
            return
    own = nm(value) == "value" and value.op == "call" and q.norm(value.args[2]) is S
    if own and children is f(T("as", S, "Branch"), "children"):
        rep.ok("branch-value", w)
        return
    rep.verdict(False if kept(value, S, ("Branch", "ForgottenSubtree", "Leaf")) or nm(value) == "default" or own and fn.name not in ("forget_internal", "remember_internal") else None, "branch-value", w, f"branch value {pp(value, 5)} for children {pp(children, 4)}")


def okof_or(t, name, q=None):
    """the call to the named function whose (successful) result or its first component t is"""
    while t is not None and t.op in ("field", "as"):
        t = t.args[0]
    if t is not None and t.op == "phi" and q is not None:
        xs = alts(q, t)
        cs = [okof_or(x, name) for x in xs]
        return cs[0] if cs and all(c is not None for c in cs) else None
    return t if t is not None and t.op == "call" and nm(t) == name else None


def stored(q, t):
    """(base, index, value) of a vector with one element replaced"""
    if t.op == "store" and len(t.args[1]) == 1 and t.args[1][0][0] == "idx":
        return q.norm(t.args[0]), q.norm(t.args[1][0][1]), q.norm(t.args[2])
    return None


def comparable(q, a, b):
    """may two unequal terms be told apart syntactically"""
    sa, sb = stored(q, a), stored(q, b)
    ra, rb = sa[0] if sa else a, sb[0] if sb else b
    return ra is rb or a is rb or b is ra


def values_of(q, d, children):
    """are the digested values those of the children, entry by entry"""
    a, b = stored(q, d), stored(q, children)
    if a is None or b is None:
        if a is None and b is not None and elementwise(q, b[0]) is not None:
            ew = elementwise(q, b[0])
            return False if d is q.norm(ew[0]) else None
        return None
    if a[1] is not b[1]:
        return False
    ew = elementwise(q, b[0])
    if ew is None:
        return None
    node = q.norm(ew[1])
    if node.op != "agg" or node.args[1] != "ForgottenSubtree":
        return None
    x = q.norm(node.args[3])
    if not (x.op == "elem" and x.args[0] is q.norm(ew[0]) and q.norm(ew[0]) is a[0]):
        return None
    return True if nm(a[2]) == "value" and q.norm(a[2].args[2]) is b[2] else False if nm(a[2]) == "value" or pure(a[2]) else None


def forgotten_value(rep, an, q, fn, w, n, node, value, S):
    if kept(value, S, ("Leaf", "Branch", "ForgottenSubtree")) and value.args[1] == "value":
        rep.ok("forgotten-value", w)
        return
    c = okof(value)
    if c is not None and nm(c) == "digest_leaf":
        rep.ok("forgotten-value", w)
        return
    if fn.name == "from_commitment":
        rep.verdict(peel(q, value, "borrow") is arg(fn, 1), "forgotten-value", w, pp(value, 3))
        return
    if nm(value) == "value" and q.norm(value.args[2]).op == "index":
        # stored back at the place it was read from
        x = q.norm(value.args[2])
        hit = False
        for ph, ins in an.phis.items():
            for v in ins.values():
                for s in find(q, v, lambda t: t.op == "store", False):
                    st = stored(q, s)
                    if st is not None and q.norm(st[2]) is node:
                        hit = True
                        good = st[1] is q.norm(x.args[1])
                        df = lin_sub(lin(q, st[1]), lin(q, x.args[1]))
                        rep.verdict(True if good else False if pure(st[1]) or not df[0] and df[1] else None, "forgotten-value", w, f"the value of entry {pp(x.args[1], 3)} is kept for entry {pp(st[1], 3)}")
        for s in [e for e in an.all_terms() if e.op == "store"] if not hit and hasattr(an, "all_terms") else []:
            pass
        if not hit:
            rep.unk("forgotten-value", w, "not stored")
        return
    if value.op == "elem":
        rep.ok("forgotten-value", w)
        return
    rep.verdict(False if nm(value) == "default" else None, "forgotten-value", w, pp(value, 5))


def admitted(q, conds, t, values, env=None):
    """the values of t that the conditions on t alone (and the numbers of env) allow, and whether any such condition was seen"""
    def ev(x, v):
        x = strip_num(q, x)
        if x is t or x.op == "phi" and t in {q.norm(y) for y in alts(q, x)}:
            return v
        if env and x in env:
            return env[x](v)
        if x.op == "const" and isinstance(x.args[0], (int, bool)):
            return int(x.args[0])
        if x.op == "bin":
            a, b = ev(x.args[1], v), ev(x.args[2], v)
            if a is None or b is None:
                return None
            k = x.args[0]
            return {"Add": a + b, "Sub": a - b, "Mul": a * b, "Eq": int(a == b), "Ne": int(a != b), "Lt": int(a < b), "Le": int(a <= b), "Gt": int(a > b), "Ge": int(a >= b)}.get(k)
        if x.op == "un" and x.args[0] == "Not":
            a = ev(x.args[1], v)
            return None if a is None else int(not a)
        return None
    out, seen = set(values), False
    for c, l in conds:
        if not isinstance(c, Term):
            continue
        for v in values:
            r = ev(c, v)
            if r is None:
                break
            seen = True
            if (r in l[1]) if isinstance(l, tuple) else str(r) != str(int(l) if isinstance(l, bool) else l):
                out.discard(v)
    return out, seen


def minus1(t):
    return T("bin", "Sub", t, const(1))


def descend(rep, an, q, fn, facet, fixed, child=None):
    """every recursive call goes one level down and passes the named arguments on; returns the calls"""
    w = fn.path
    ev = [e for e in an.events if last(e) == fn.name]
    rep.verdict(bool(ev), facet, w, "no recursion into the children")
    S, ht = arg(fn, 1), arg(fn, 2)
    for e in ev:
        a = [q.norm(x) for x in e.args]
        h = a[1]
        rep.verdict(True if h is q.norm(minus1(ht)) else False if pure(h) else None, facet, w, f"recursion with height {pp(h, 4)}")
        for i in fixed:
            x = peel(q, a[i - 1], "borrow", "by_ref")
            ok = x is arg(fn, i) or x.op == "out"
            rep.verdict(True if ok else False if pure(x) else None, facet, w, f"recursion passes {pp(x, 4)} for argument {i}")
    return ev


def digit(fn, tp, ht):
    return T("index", arg(fn, tp), minus1(arg(fn, ht)))


@check("M04", [C], """Every construction of a tree node in the inlined bodies of building, updating, extending, forgetting and remembering is checked: a leaf carries the digest of its own
position and element, a branch the digest of exactly the children it keeps (an unchanged value only with unchanged children, or when the changed child keeps its value), a forgotten node the
value of the node it replaces, at the same place. Building: groups of the arity over the enumerated elements, padded with empty nodes to the arity, repeated for every level. Updating: one
level down along the digit of the position, the new child stored where it was read, an empty node only for all-empty children; leaf count changes by -1, 0, +1. Appending: recurrences of
position, count and frontier; the frontier digit only at the frontier.""", floor=8)
def m04(rep, prog):
    hid = lambda g: g.name in NODE_OPAQUE
    for nmx, sh in (("build_tree_internal", None), ("build_light_weight_tree_internal", None), ("update_with_internal", NODE), ("extend_internal", NODE), ("extend_and_forget_internal", NODE),
                    ("forget_internal", NODE), ("remember_internal", NODE)):
        fn = rep.anchor(prog, C, nmx, sh)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=hid)
        node_lint(rep, an, q, fn)
        if nmx.startswith("build"):
            building(rep, an, q, fn)
        elif nmx.startswith("extend"):
            extending(rep, an, q, fn)
        elif nmx.startswith("update"):
            updating(rep, an, q, fn)
    for t in TREES:
        for fn in prog.find(C, "from_commitment", t):
            an, q = rep.analyse(prog, fn, opaque=hid)
            node_lint(rep, an, q, fn)
            for _, v in returned(q, an.exits()):
                g = parts_of(q.norm(v))
                rep.verdict(g.get("height") is arg(fn, 2) and g.get("num_leaves") is arg(fn, 3), "from-commitment", fn.path, pp(v, 4))
        fn = rep.anchor(prog, C, "new", t)
        if fn is not None:
            an, q = rep.analyse(prog, fn)
            for _, v in returned(q, an.exits()):
                g = parts_of(q.norm(v))
                r = q.norm(g["root"]) if "root" in g else None
                rep.verdict(None if r is None else r.op == "agg" and r.args[1] == "Empty" and g["height"] is arg(fn, 1) and is_const(g["num_leaves"], 0), "new-empty", fn.path, pp(v, 4))
    fn = rep.anchor(prog, C, "digest_branch")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=hid)
        for e in an.exits():
            for _, v in case_list(q, e):
                v = q.norm(v)
                c = v if nm(v) == "digest" else okof(payload(v)) if v.op == "agg" and v.args[1] == "Ok" and len(v.args) > 3 else None
                if c is None or nm(c) != "digest":
                    if not (v.op == "agg" and v.args[1] == "Err"):
                        rep.unk("branch-digest", fn.path, pp(v, 5))
                    continue
                ew = elementwise(q, c.args[2])
                ok = ew is not None and q.norm(ew[0]) is arg(fn, 1) and nm(q.norm(ew[1])) == "value"
                rep.verdict(True if ok else False if ew is not None and q.norm(ew[0]).op in ("rev", "skip", "take", "slice", "filter", "takewhile", "skipwhile") else None, "branch-digest", fn.path, pp(c, 5))
    fn = rep.anchor(prog, C, "value", NODE)
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        S = arg(fn, 1)
        for e in an.exits():
            for cs, v in case_list(q, e):
                v = q.norm(v)
                vs = [l for c, l in list(cs) if c.op == "disc" and c.args[0] is S]
                if kept(v, S, ("Leaf", "Branch", "ForgottenSubtree")):
                    rep.verdict(v.args[1] == "value", "node-value", fn.path, pp(v, 3))
                else:
                    rep.verdict(True if nm(v) == "default" else None, "node-value", fn.path, pp(v, 3))
        rep.verdict(True if len([1 for e in an.exits() for _ in case_list(q, e)]) >= 4 else None, "node-value", fn.path, "variants are not told apart")


def building(rep, an, q, fn):
    w = fn.path
    els = arg(fn, 2)
    chunked = [t for n, v in an.built(NODE) for t in find(q, q.norm(v), lambda x: x.op == "chunks", True)]
    rep.verdict(bool(chunked) and all(t.args[1] is ARITY for t in chunked) if chunked else None, "build-groups", w, f"groups {[pp(t, 3) for t in chunked][:2]}")
    pads = [e for e in an.events if last(e) == "pad_using"]
    for e in pads:
        rep.verdict(e.args[1] is ARITY if len(e.args) > 1 else None, "build-padding", w, f"a group is padded to {pp(e.args[1], 3)}")
    if len(pads) < 2:
        rep.unk("build-padding", w, f"{len(pads)} paddings")
    for n, v in an.built(NODE):
        v = q.norm(v)
        if v.op == "agg" and v.args[1] in ("Leaf", "ForgottenSubtree"):
            c = okof(q.norm(parts_of(v)["value"]))
            if c is None or nm(c) != "digest_leaf":
                continue
            a, b = peel(q, c.args[2], "borrow"), peel(q, c.args[3], "borrow")
            if a.op == "const":
                rep.verdict(b.op == "index" and is_const(b.args[1], a.args[0]), "build-positions", w, f"leaf at {pp(a, 2)} holds {pp(b, 3)}")
            else:
                same_ = a.op == b.op == "field" and a.args[0] is b.args[0] and a.args[1] == "0" and b.args[1] == "1" and find(q, a, lambda t: t.op == "enumerate" and t.args[0] is els)
                rep.verdict(True if same_ else False if pure(a) and pure(b) and not same_ and a.op == "field" else None, "build-positions", w, f"leaf at {pp(a, 4)} holds {pp(b, 4)}")
    # the last leaf and the nodes above it stay in memory, so that appending can go on from them
    for n, v in an.built(NODE):
        v = q.norm(v)
        if v.op != "agg" or v.args[1] != "ForgottenSubtree":
            continue
        x = q.norm(parts_of(v)["value"])
        c = okof(x)
        if c is not None and nm(c) == "digest_leaf":
            a = strip_num(q, peel(q, c.args[2], "borrow"))
            ps, seen = admitted(q, q.node_conds(n.id), a, (0, 1, 2, 3), {strip_num(q, q.nlen(els)): lambda v: 4})
            rep.verdict(3 not in ps if seen else None, "build-frontier", w, "the last leaf is not kept")
        elif nm(x) == "value" and q.norm(x.args[2]).op == "index":
            arr, i = (q.norm(y) for y in q.norm(x.args[2]).args[:2])
            hi = q.norm(i.args[1]) if i.op == "ridx" else None
            if i.op == "elem" and q.norm(i.args[0]).op == "rangei":
                hi = q.norm(T("bin", "Add", q.norm(q.norm(i.args[0]).args[1]), const(1)))
            less = hi is not None and hi.op == "bin" and hi.args[0] == "Sub" and q.norm(hi.args[1]).op == "len" and q.norm(hi.args[2]).op == "const" and hi.args[2].args[0] > 0
            full = hi is not None and (hi.op == "len" or find(q, hi, lambda t: t.op == "len", False) and hi.op == "bin" and hi.args[0] == "Add")
            own = any(i in find(q, c, lambda t: t is i, False) for c, l in q.node_conds(n.id) if isinstance(c, Term) and c.op == "bin")
            rep.verdict(True if less else False if full and not own else None, "build-frontier", w, f"nodes are dropped from memory up to {pp(hi, 3) if hi is not None else pp(i, 3)}")
    for e, cs, v in [(e, cs, q.norm(x)) for e in ok_exits(an) for cs, x in outcomes(q, e)]:
        if v.op != "agg" or v.args[1] != "Ok":
            continue
        v = q.norm(payload(v))
        if v.op != "agg" or v.args[0] != "tuple":
            rep.unk("build-result", w, pp(v, 4))
            continue
        root, ht, cnt = (q.norm(x) for x in v.args[3:6])
        kf = KForm(q)
        n = q.nlen(els)
        # number of leaves
        hs = set(alts(q, ht))
        rep.verdict(cnt is q.norm(T("cast", n, "u64")) or cnt is n or cnt.op == "const", "build-count", w, f"leaf count {pp(cnt, 4)}")
        if root.op == "agg":
            cs = list(cs) + q.node_conds(e.id)
            if root.args[1] == "Empty":
                ns, seen = admitted(q, cs, n, (0, 1, 2, 3))
                rep.verdict(ns == {0} if seen else None, "build-empty", w, f"an empty tree is returned for {sorted(ns)} elements")
            elif root.args[1] == "Leaf":
                hs, seen = admitted(q, cs, ht, (0, 1, 2))
                rep.verdict(hs == {0} if seen else None, "build-single", w, f"a single leaf is returned for heights {sorted(hs)}")
            continue
        r = root
        if r.op == "index":
            rep.verdict(is_const(r.args[1], 0), "build-root", w, f"the root is entry {pp(r.args[1], 3)}")
            xs = alts(q, r.args[0])
            lp = [q.loop_phi(x) for x in xs if x.op == "phi"]
            doms = [q.norm(q.loop_domain(p[0])) for p in lp if p is not None and q.loop_domain(p[0]) is not None]
            # levels: one from the leaves, then height-1 more
            for d in doms:
                if d.op == "agg" and "Range" in d.args[0]:
                    rep.verdict(is_const(d.args[3], 1) and (d.args[4] is ht or ht in [q.norm(x) for x in alts(q, d.args[4])]), "build-levels", w, f"further levels {pp(d, 3)}")
                elif d.op == "rangei":
                    rep.verdict(False if is_const(d.args[0], (0, 1)) and (q.norm(d.args[1]) is ht or ht in [q.norm(x) for x in alts(q, d.args[1])]) else None, "build-levels", w, f"further levels {pp(d, 3)}")
            if not doms:
                rep.unk("build-levels", w, pp(root, 3))
        else:
            rep.unk("build-root", w, pp(root, 4))


def updating(rep, an, q, fn):
    w = fn.path
    S, ht, pos, tp = (arg(fn, i) for i in range(1, 5))
    ev = descend(rep, an, q, fn, "update-descends", (3, 4, 5))
    D = q.norm(digit(fn, 4, 2))
    for e in ev:
        c = q.norm(e.args[0])
        ok = c.op == "index" and q.norm(c.args[1]) is D
        rep.verdict(True if ok else False if c.op == "index" and pure(c.args[1]) else None, "update-branch", w, f"recursion into {pp(c, 4)}")
    for n, v in an.built(NODE):
        v = q.norm(v)
        if v.op != "agg" or v.args[1] != "Branch":
            continue
        st = stored(q, q.norm(parts_of(v)["children"]))
        if st is None:
            rep.unk("update-store", w, pp(v, 4))
            continue
        ew = elementwise(q, st[0])
        if ew is not None and q.norm(ew[1]).op == "agg" and q.norm(ew[1]).args[1] == "Empty":
            rep.verdict(arity_many(q, ew[0]), "update-children", w, f"a new branch gets children {pp(q.norm(ew[0]), 3)}")
        c = okof_or(st[2], fn.name, q)
        ok = c is not None and q.norm(c.args[2]) is q.norm(T("index", st[0], st[1])) and st[1] is D
        rep.verdict(True if ok else False if c is not None else None, "update-store", w, f"the new child is stored at {pp(st[1], 3)}")
        # a branch only disappears when all its children are empty
    for n, v in an.built(NODE):
        if q.norm(v).op == "agg" and q.norm(v).args[1] == "Empty" and variants_of(q, q.node_conds(n.id), S) == "Branch":
            rep.verdict(all_children_are(q, n.id, {"Empty"}), "update-collapse", w, "a branch becomes empty although some child may not be")
    # results
    seen = set()
    for e in ok_exits(an):
        for cs, v in outcomes(q, e):
            v = payload(q.norm(v)) if q.norm(v).op == "agg" and q.norm(v).args[1] == "Ok" else None
            if v is None:
                continue
            v = q.norm(v)
            if v.op != "agg" or v.args[0] != "tuple":
                rep.unk("update-result", w, pp(v, 4))
                continue
            node, delta, res = (q.norm(x) for x in v.args[3:6])
            conds = list(cs) + q.node_conds(e.id)
            was = variants_of(q, conds, S)
            nodek = node.args[1] if node.op == "agg" and node.args[0].endswith(NODE) else None
            c = okof_or(delta, fn.name, q)
            if delta.op == "const":
                if was is None or nodek is None:
                    rep.unk("update-delta", w, pp(v, 4))
                    continue
                want = {("Leaf", "Leaf"): 0, ("Leaf", "Empty"): -1, ("Empty", "Leaf"): 1, ("Empty", "Empty"): 0}.get((was, nodek))
                got = delta.args[0]
                got = got - (1 << 64) if isinstance(got, int) and got >= 1 << 63 else got
                rep.verdict(None if want is None else got == want, "update-delta", w, f"{was} becomes {nodek} with a change of {got} leaves")
                seen.add((was, nodek))
                if (was, nodek) == ("Empty", "Leaf"):
                    hs, known = admitted(q, conds, ht, (0, 1, 2))
                    rep.verdict(hs == {0} if known else None, "update-height", w, f"leaves are put at heights {sorted(hs)}")
                kind = res.args[1] if res.op == "agg" else None
                if was == "Leaf":
                    rep.verdict(kind == "Ok" and q.norm(res.args[3]) is f(T("as", S, "Leaf"), "elem") if kind else None, "update-previous", w, f"the previous element is reported as {pp(res, 3)}")
                elif was == "Empty":
                    rep.verdict(kind == "NotFound" if kind else None if okof_or(res, fn.name, q) is None else True, "update-previous", w, f"an absent element is reported as {pp(res, 3)}")
            elif c is not None:
                rep.verdict(delta.args[1] == "1", "update-delta", w, f"change {pp(delta, 4)}")
                rep.verdict(True if okof_or(res, fn.name, q) is c and res.args[1] == "2" else None, "update-previous", w, pp(res, 3))
            else:
                rep.unk("update-delta", w, pp(delta, 4))
    rep.verdict({("Leaf", "Leaf"), ("Leaf", "Empty"), ("Empty", "Leaf")} <= seen or None, "update-cases", w, f"cases {sorted(seen)}")
    # forgotten positions are refused
    bad = [v for e in ok_exits(an) for cs, v in outcomes(q, e) if variants_of(q, list(cs) + q.node_conds(e.id), S) == "ForgottenSubtree" and q.norm(v).op == "agg" and q.norm(v).args[1] == "Ok"]
    rep.verdict(not bad, "update-forgotten", w, "a forgotten position is updated")


def variants_of(q, conds, x):
    """the variant of x these conditions establish, if one"""
    for c, l in conds:
        c = c if c.op == "disc" else q.norm(c)
        if c.op == "disc" and q.norm(c.args[0]) is x and not isinstance(l, tuple):
            m = dict(c.args[1])
            return m.get(str(l))
        if c.op == "disc" and q.norm(c.args[0]) is x and isinstance(l, tuple):
            m = dict(c.args[1])
            left = [v for k, v in m.items() if k not in {str(z) for z in l[1]}]
            if len(left) == 1:
                return left[0]
    return None


def all_children_are(q, nid, kinds):
    """is the node only reached when every child (of some list of children) is of these kinds: True, False or None"""
    an = q.an
    for h in an.loops():
        d = q.loop_domain(h)
        if d is None or not an.must_pass(h, [nid]) or not any(c.op == "more" and q.norm(c.args[0]) is q.norm(d) and l == 0 for c, l in q.node_conds(nid)):
            continue
        tests, every = set(), True
        for path in q.loop_paths(h) or []:
            mine = set()
            for c, l in q.conds_on(path, h):
                if c.op == "disc" and "Empty" in dict(c.args[1]).values():
                    m = dict(c.args[1])
                    mine |= {m.get(str(l))} if not isinstance(l, tuple) else {v for k, v in m.items() if k not in {str(z) for z in l[1]}}
            every = every and bool(mine)
            tests |= mine
        if tests:
            return every and tests <= kinds
    for h in an.loops():
        # reached by leaving the loop over the children early
        d = q.loop_domain(h)
        if d is not None and nid not in an.loops()[h][0] and an.must_pass(h, [nid]) and any(c.op == "more" and q.norm(c.args[0]) is q.norm(d) and l == 1 for c, l in q.node_conds(nid)):
            return False
    return False if not any(c.op in ("more", "call", "phi") for c, l in q.node_conds(nid)) else None


def extending(rep, an, q, fn):
    w = fn.path
    S, ht, pos, tp, fr, data = (arg(fn, i) for i in range(1, 7))
    ev = descend(rep, an, q, fn, "extend-descends", (4,))
    D = q.norm(digit(fn, 4, 2))
    for e in ev:
        a = [q.norm(x) for x in e.args]
        h = loop_of(an, e.node.id)
        c = a[0]
        if h is None or c.op != "index":
            rep.unk("extend-loop", w, pp(c, 4))
            continue
        ret = q.norm(e.ret) if e.ret is not None else None
        # position passed down starts at the given one and grows by what was inserted
        incr = lambda t: okof_or(t, fn.name, q) is not None and t.args[1] == "1"

        def recurrence(x, init, facet, what):
            r = q.loop_phi(x) if x.op == "phi" else None
            if r is None:
                rep.verdict(False if x is init else None, facet, w, f"{what} {pp(x, 4)}")
                return
            ok = all(q.norm(i) is init for i in r[1])
            steps = [q.norm(s) for s in r[2]]
            good = all(s.op == "bin" and s.args[0] == "Add" and x in s.args[1:] and any(incr(z) for z in s.args[1:] if z is not x) for s in steps)
            bad = any(s.op == "bin" and s.args[0] != "Add" and x in s.args[1:] and any(incr(z) for z in s.args[1:]) or s is x or s.op == "bin" and is_const([z for z in s.args[1:] if z is not x][0], tuple(range(9))) if s.op != "bin" or x in s.args[1:] else False for s in steps)
            rep.verdict(True if ok and good else False if bad or not ok else None, facet, w, f"{what} goes from {[pp(i, 3) for i in r[1]]} to {[pp(s, 4) for s in steps]}")
        recurrence(a[2], pos, "extend-position", "position")
        # frontier index
        i = q.norm(c.args[1])
        if i.op == "ridx":
            lo, hi = q.norm(i.args[0]), q.norm(i.args[1])
            rep.verdict(True if hi is ARITY else False if pure(hi) else None, "extend-range", w, f"children up to {pp(hi, 3)}")
            ep = endpoint_at(q, lo, fr, D)
            rep.verdict(ep, "extend-start", w, f"the first child is {pp(lo, 4)}")
            at = q.norm(a[4])
            rep.verdict(frontier_flag(q, at, fr, i, D, q.node_conds(e.node.id)), "extend-frontier", w, f"the frontier flag passed down is {pp(at, 4)}")
        else:
            rep.unk("extend-range", w, pp(i, 4))
        # result stored where it was read
        for n, v in an.built(NODE):
            v = q.norm(v)
            if v.op == "agg" and v.args[1] == "Branch":
                ch = q.norm(parts_of(v)["children"])
                if ch.op != "phi" or q.loop_phi(ch) is None:
                    continue
                hh, init, steps = q.loop_phi(ch)
                if hh != h:
                    continue
                for s in steps:
                    st = stored(q, q.norm(s))
                    ok = st is not None and okof_or(st[2], fn.name, q) is not None and st[2].args[1] == "0" and st[1] is i
                    rep.verdict(True if ok else False if st is not None and okof_or(st[2], fn.name, q) is not None else None, "extend-store", w, f"the new child goes to {pp(st[1], 3) if st else '?'}")
                for x in init:
                    x = q.norm(x)
                    ok = x is f(T("as", S, "Branch"), "children")
                    if not ok:
                        ew = elementwise(q, x)
                        ok = ew is not None and q.norm(ew[1]).op == "agg" and q.norm(ew[1]).args[1] == "Empty"
                        ok = ok and arity_many(q, ew[0])
                    rep.verdict(ok or None if ok is not False or x.op != "map" else False, "extend-initial", w, pp(x, 4))
    for e in ok_exits(an):
        for cs, v in outcomes(q, e):
            v = q.norm(v)
            if v.op != "agg" or v.args[1] != "Ok":
                continue
            v = q.norm(payload(v))
            if v.op != "agg" or v.args[0] != "tuple":
                continue
            node, cnt = q.norm(v.args[3]), q.norm(v.args[4])
            k = node.args[1] if node.op == "agg" else None
            P = parts_of(node) if k else {}
            if k == "Leaf" and okof(q.norm(P["value"])) is not None:
                rep.verdict(is_const(cnt, 1), "extend-count", w, f"an inserted leaf counts {pp(cnt, 2)}")
                hs, seen = admitted(q, list(cs) + q.node_conds(e.id), ht, (0, 1, 2))
                rep.verdict(hs == {0} if seen else None, "extend-height", w, f"leaves are put at heights {sorted(hs)}")
                rep.verdict(peel(q, P["pos"], "borrow") is pos, "extend-leaf", w, f"the new leaf is at {pp(P['pos'], 3)}")
            elif k == "Branch" and not kept(q.norm(P["value"]), S, ("Branch",)):
                r = q.loop_phi(cnt) if cnt.op == "phi" else None
                if r is None:
                    rep.verdict(False if cnt.op == "const" else None, "extend-count", w, f"inserted count {pp(cnt, 4)}")
                else:
                    steps = [q.norm(s) for s in r[2]]
                    ok = all(is_const(x, 0) for x in r[1]) and all(s.op == "bin" and s.args[0] == "Add" and cnt in s.args[1:] and any(okof_or(z, fn.name, q) is not None and z.args[1] == "1" for z in s.args[1:] if z is not cnt) for s in steps)
                    bad = any(s.op == "bin" and s.args[0] != "Add" and cnt in s.args[1:] for s in steps)
                    rep.verdict(True if ok else False if bad or all(pure(x, (fn.name,)) for x in steps) else None, "extend-count", w, f"inserted count {[pp(s, 4) for s in steps]}")
            elif k is not None:
                rep.verdict(is_const(cnt, 0), "extend-count", w, f"nothing inserted counts {pp(cnt, 2)}")
                left = {dict(c.args[1]).get(str(l)) for c, l in list(cs) + q.node_conds(e.id) if c.op == "disc" and nm(q.norm(c.args[0])) == "peek" and not isinstance(l, tuple)}
                if left:
                    rep.verdict(left == {"None"}, "extend-all", w, "a node is left as it is although elements remain")
    bad = [v for e in ok_exits(an) for cs, v in outcomes(q, e) if variants_of(q, list(cs) + q.node_conds(e.id), S) in ("Leaf", "ForgottenSubtree") and q.norm(v).op == "agg" and q.norm(v).args[1] == "Ok"
           and not is_const(q.norm(payload(q.norm(v))).args[4], 0)]
    rep.verdict(not bad, "extend-occupied", w, "an occupied or forgotten position is appended to")


def arity_many(q, d):
    """does a range yield as many items as the arity"""
    d = q.norm(d)
    if d.op == "agg" and "Range" in d.args[0] and len(d.args) >= 5:
        if is_const(d.args[3], 0) and "Inclusive" not in d.args[0]:
            return q.norm(d.args[4]) is ARITY or (False if pure(q.norm(d.args[4])) else None)
        return False if pure(d) else None
    if d.op == "rangei":
        return False if is_const(d.args[0], (0, 1)) and q.norm(d.args[1]) is ARITY and is_const(d.args[0], 0) else None
    return None


def endpoint_at(q, t, flag, D):
    """digit when the flag is set, 0 otherwise"""
    t = q.an.simp(t)
    if t is D:
        return None
    if t.op == "const":
        return False
    if t.op != "phi":
        return None
    cs = q.cases(q.an.nodes[t.args[0]], t)
    if cs is None:
        return None
    for c, v in cs:
        lab = [l for x, l in c if q.norm(x) is flag]
        if not lab:
            return None
        v = q.norm(v)
        if lab[0] == 1 and v is not D or lab[0] == 0 and not is_const(v, 0):
            return False
    return True


def frontier_flag(q, t, flag, i, D, conds):
    """flag and (i == digit)"""
    t = q.an.simp(t)
    have = {l for c, l in conds if q.norm(c) is flag}
    at = {(l == 1 or isinstance(l, tuple) and 0 in l[1]) == (c.args[0] == "Eq") for c, l in conds if c.op == "bin" and c.args[0] in ("Eq", "Ne") and {q.norm(y) for y in c.args[1:]} == {i, D}}
    if at == {True} and (t is flag or t.op == "const"):
        return t is flag or have == {int(bool(t.args[0]))} or (False if not have else None)
    if at == {False} and (t is flag or t.op == "const"):
        return is_const(t, 0) or have == {0}
    if have == {0}:
        return is_const(t, 0) if t.op == "const" else None
    if have == {1} and t.op == "bin" and t.args[0] == "Eq":
        return {q.norm(y) for y in t.args[1:]} == {i, D}
    if t is flag:
        return False
    if t.op == "const":
        return False
    iseq = lambda x: x.op == "bin" and x.args[0] == "Eq" and {q.norm(y) for y in x.args[1:]} == {i, D}
    if t.op == "bin" and t.args[0] in ("Ne", "Lt", "Le", "Gt", "Ge") and {q.norm(y) for y in t.args[1:]} == {i, D}:
        return False
    if t.op == "bin" and t.args[0] == "BitAnd":
        return True if flag in t.args[1:] and any(iseq(q.norm(x)) for x in t.args[1:]) else None
    if t.op != "phi":
        return None
    cs = q.cases(q.an.nodes[t.args[0]], t)
    if cs is None:
        return None
    for c, v in cs:
        lab = [l for x, l in c if q.norm(x) is flag]
        v = q.norm(v)
        if lab and lab[0] == 1:
            if not iseq(v):
                return False if v is flag or v.op in ("const", "bin") else None
        elif lab and not is_const(v, 0):
            return False
    return True


# ---------------------------------------------------------------- forgetting, remembering, looking up
INTERNAL = ("lookup_internal", "forget_internal", "remember_internal", "extend_internal", "extend_and_forget_internal", "update_with_internal", "verify_merkle_proof", "verify_merkle_range_proof",
            "value", "to_traversal_path")


def fields_after(q, e, i, fn):
    """[(conditions, {field: value})] of the parts of the &mut parameter i written before an exit"""
    out = []
    for cs, v in outcomes(q, e, final(e, i)) if final(e, i) is not None else []:
        d, v = {}, q.norm(v)
        while v.op == "store" and len(v.args[1]) == 1 and v.args[1][0][0] == "f":
            d.setdefault(v.args[1][0][2], q.norm(v.args[2]))
            v = q.norm(v.args[0])
        out.append((cs, d if v is arg(fn, i) else None))
    return out


def sibling_list(q, t, S, D):
    """are these the values of all children except the one at D, in order: True, False or None"""
    t = q.norm(t)
    ch = f(T("as", S, "Branch"), "children")
    ew = elementwise(q, t)
    if ew is None:
        return None
    src, body = q.norm(ew[0]), q.norm(ew[1])
    if nm(body) != "value":
        return False if pure(body, ("value", "default")) else None
    if src is ch:
        return False
    if src.op != "filter":
        return False if src.op in ("rev", "skip", "take", "slice", "takewhile", "skipwhile") else None
    dom, cond = q.norm(src.args[0]), q.norm(src.args[1])
    base = dom.args[0] if dom.op == "enumerate" else dom
    if q.norm(base) is not ch:
        return False if q.norm(base).op in ("rev", "skip", "take", "slice", "store") else None
    if cond.op == "bin" and cond.args[0] in ("Ne", "Eq", "Lt", "Le", "Gt", "Ge"):
        a, b = q.norm(cond.args[1]), q.norm(cond.args[2])
        return cond.args[0] == "Ne" and D in (a, b) and any(x.op == "idx" for x in (a, b))
    return None


def proof_list(q, t):
    """(previous proof, list pushed) of a proof that grew by one level"""
    t = q.norm(t)
    if t.op == "store" and len(t.args[1]) == 1 and t.args[1][0][0] == "f":
        base, p = q.norm(t.args[0]), q.norm(t.args[2])
        if p.op == "push" and q.norm(p.args[0]) is q.norm(f(base, "0")):
            return base, p.args[1]
    if t.op == "agg" and t.args[1] == "MerkleTreeProof":
        p = q.norm(t.args[3])
        if p.op == "push":
            b = q.norm(p.args[0])
            return (b.args[0] if b.op == "field" and b.args[1] == "0" else b), p.args[1]
    return None


def lookup_result(rep, q, fn, w, facet, cs, v, S, ht, D, rec):
    """shape of one alternative of a lookup result; rec = name of the recursive call"""
    v = q.norm(v)
    if v.op != "agg":
        rep.verdict(True if okof_or(v, rec, q) is not None else None, facet, w, pp(v, 4))
        return
    k = v.args[1]
    was = variants_of(q, cs, S)
    if k == "NotInMemory":
        rep.verdict(True if was in ("ForgottenSubtree", "Branch") else False if was in ("Leaf", "Empty") else None, facet + "-forgotten", w, f"a position under {was} is reported as forgotten")
        return
    pr = v.args[4] if k == "Ok" else v.args[3]
    pr = q.norm(pr)
    if k == "Ok":
        el = q.norm(v.args[3])
        if el is f(T("as", S, "Leaf"), "elem"):
            ok = pr.op == "agg" and pr.args[1] == "MerkleTreeProof" and array_of(q.norm(pr.args[3])) == []
            rep.verdict(True if ok else None, facet + "-leaf", w, pp(pr, 4))
            return
        c = okof_or(el, rec, q)
        rep.verdict(True if c is not None else None, facet + "-element", w, pp(el, 4))
    elif pr.op == "agg" and pr.args[1] == "MerkleTreeProof" and (q.norm(pr.args[3]).op == "fill" or array_of(q.norm(pr.args[3])) is not None):
        p = q.norm(pr.args[3])
        if p.op == "fill":
            rep.verdict(True if p.args[1] is ht and array_of(q.norm(p.args[0])) == [] and was in (None, "Empty") else False, facet + "-absent", w, f"an empty subtree yields {pp(p, 3)}")
        else:
            rep.verdict(False, facet + "-absent", w, "an empty subtree yields a proof without levels")
        return
    pl = proof_list(q, pr)
    if pl is None:
        rep.verdict(False if okof_or(pr, rec, q) is not None else None, facet + "-siblings", w, f"proof {pp(pr, 5)}")
        return
    rep.verdict(True if okof_or(pl[0], rec, q) is not None else None, facet + "-levels", w, pp(pl[0], 4))
    rep.verdict(sibling_list(q, pl[1], S, D), facet + "-siblings", w, f"the level added is {pp(pl[1], 6)}")


def to_path(q, x, pos, ht):
    x = q.norm(x)
    return nm(x) == "to_traversal_path" and peel(q, x.args[2], "borrow") is pos and q.norm(x.args[3]) is ht


@check("M05", [C], """Forgetting and remembering. Decided: forgetting goes down along the digits of the position, replaces the leaf by a forgotten node of the same value, keeps the values above it,
stores the new child where it was read, drops a branch only when all children are forgotten or empty, changes nothing when the position is absent or not in memory, and returns the proof a
lookup would return. Remembering mutates only after the proof was verified against the own commitment for exactly this position and element and has the height of the tree; every rejecting
exit leaves the tree as it was; the position count is never touched.""", floor=5)
def m05(rep, prog):
    hid = lambda g: g.name in NODE_OPAQUE
    fn = rep.anchor(prog, C, "forget_internal", NODE)
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=hid)
        w = fn.path
        S, ht = arg(fn, 1), arg(fn, 2)
        D = q.norm(digit(fn, 3, 2))
        ch = f(T("as", S, "Branch"), "children")
        for e in descend(rep, an, q, fn, "forget-descends", (3,)):
            c = q.norm(e.args[0])
            rep.verdict(True if c is q.norm(T("index", ch, D)) else False if c.op == "index" and pure(c) else None, "forget-branch", w, f"recursion into {pp(c, 4)}")
        n_ok = 0
        for e in an.exits():
            for cs, v in outcomes(q, e):
                v = q.norm(v)
                if v.op != "agg" or v.args[0] != "tuple":
                    rep.unk("forget-result", w, pp(v, 4))
                    continue
                cs = list(cs) + q.node_conds(e.id)
                node, res = q.norm(v.args[3]), q.norm(v.args[4])
                was = variants_of(q, cs, S)
                k = res.args[1] if res.op == "agg" else None
                lookup_result(rep, q, fn, w, "forget", cs, res, S, ht, D, fn.name)
                if k in ("NotInMemory", "NotFound"):
                    same_ = node is S or node.op == "agg" and all(kept(q.norm(x), S, (node.args[1],)) for x in node.args[3:]) and (was is None or node.args[1] == was)
                    rep.verdict(True if same_ else False, "forget-unchanged", w, f"nothing is forgotten but the node becomes {pp(node, 4)}")
                elif k == "Ok":
                    n_ok += 1
                    if node.op == "agg" and node.args[1] == "ForgottenSubtree":
                        rep.verdict(kept(q.norm(node.args[3]), S, (was,)) if was else None, "forget-value", w, pp(node, 3))
                    elif node.op == "agg" and node.args[1] == "Branch":
                        st = stored(q, q.norm(parts_of(node)["children"]))
                        good = st is not None and st[0] is ch and st[1] is D and okof_or(st[2], fn.name, q) is not None and st[2].args[1] == "0"
                        rep.verdict(True if good else False if st is not None or q.norm(parts_of(node)["children"]) is ch else None, "forget-store", w, f"children {pp(parts_of(node)['children'], 4)}")
                    else:
                        rep.verdict(False if node.op == "agg" or node is S else None, "forget-value", w, pp(node, 3))
        rep.verdict(n_ok >= 2 or None, "forget-result", w, "")
        for n, v in an.built(NODE):
            v = q.norm(v)
            if v.op == "agg" and v.args[1] == "ForgottenSubtree" and variants_of(q, q.node_conds(n.id), S) == "Branch":
                rep.verdict(all_children_are(q, n.id, {"Empty", "ForgottenSubtree"}), "forget-collapse", w, "a branch is forgotten although some child is still in memory")
    fn = rep.anchor(prog, C, "remember_internal", NODE)
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=hid)
        w = fn.path
        S, ht, tp, pos, el, pf = (arg(fn, i) for i in range(1, 7))
        D = q.norm(digit(fn, 3, 2))
        for e in descend(rep, an, q, fn, "remember-descends", (3, 4, 5, 6)):
            c = q.norm(e.args[0])
            rep.verdict(True if c.op == "index" and q.norm(c.args[1]) is D else False if c.op == "index" and pure(c.args[1]) else None, "remember-branch", w, f"recursion into {pp(c, 4)}")
        for e in an.exits():
            for cs, v in outcomes(q, e):
                cs = list(cs) + q.node_conds(e.id)
                hs, seen = admitted(q, cs, ht, (0, 1, 2))
                v = q.norm(v)
                if v.op == "agg" and v.args[1] in ("Ok", "Err") and variants_of(q, cs, S) == "Leaf" and seen:
                    rep.verdict((0 in hs) == (v.args[1] == "Ok"), "remember-height", w, f"a leaf at height {sorted(hs)} is {'accepted' if v.args[1] == 'Ok' else 'refused'}")
        for e in ok_exits(an):
            for cs, v in outcomes(q, e):
                v = q.norm(v)
                if v.op != "agg" or v.args[1] != "Ok":
                    continue
                node = q.norm(payload(v))
                cs = list(cs) + q.node_conds(e.id)
                was = variants_of(q, cs, S)
                k = node.args[1] if node.op == "agg" else None
                if k == "Branch":
                    P = parts_of(node)
                    st = stored(q, q.norm(P["children"]))
                    good = st is not None and st[1] is D and okof_or(st[2], fn.name, q) is not None
                    rep.verdict(True if good else False if st is not None else None, "remember-store", w, f"children {pp(P['children'], 4)}")
                    if was == "ForgottenSubtree" and st is not None:
                        ew = elementwise(q, st[0])
                        vec = q.norm(ew[0]) if ew else None
                        good = vec is not None and vec.op == "vinsert" and q.norm(vec.args[0]) is q.norm(T("index", pf, minus1(ht))) and q.norm(vec.args[1]) is D
                        rep.verdict(True if good else False if vec is not None and vec.op == "vinsert" else None, "remember-siblings", w, f"children taken from {pp(vec, 4) if vec is not None else '?'}")
                elif k == "Empty" and was == "ForgottenSubtree":
                    rep.verdict(variants_of(q, cs, el) == "None", "remember-empty", w, "an element is dropped")
                elif k == "Leaf" and was == "ForgottenSubtree":
                    P = parts_of(node)
                    rep.verdict(peel(q, P["pos"], "borrow") is pos and peel(q, P["elem"], "borrow") is q.norm(f(T("as", el, "Some"), "0")), "remember-leaf", w, pp(node, 4))
    op = lambda g: g.name in INTERNAL
    jobs = [(t, "remember", lambda fn: ("Some", arg(fn, 3)), 4) for t in TREES] + [("UniversalMerkleTree", "non_membership_remember", lambda fn: ("None", None), 3)]
    for t, name, el, pi in jobs:
        fn = rep.anchor(prog, C, name, t) if name != "remember" or t != "UniversalMerkleTree" else next(iter(prog.find(C, name, t)), None)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=op)
        w = fn.path
        s, pos, proof = arg(fn, 1), arg(fn, 2), arg(fn, pi)
        ht, root = f(s, "height"), f(s, "root")
        facts, _ = accept_facts(an, q)
        ver = [fa for fa in facts if fa.pred[0] == "is" and okof_or(fa.pred[1], "verify_merkle_proof", q) is not None and fa.pred[1].op == "field"]
        expect(rep, facts, "remember-verified", w, lambda p: p[0] == "is" and p[1].op == "field" and okof_or(p[1], "verify_merkle_proof", q) is not None and p[2] == frozenset({"Ok"})
               or p[0] in ("Eq",) and any(isinstance(x, Term) and x.op == "field" and okof_or(x, "verify_merkle_proof", q) is not None for x in p[1:3]), "a leaf is remembered without a verified proof")
        expect(rep, facts, "remember-height", w, lambda p: p[0] == "Eq" and {p[1], p[2]} == {q.nlen(f(proof, "0")), ht}, "a proof of another height is accepted")
        for e in an.events:
            if last(e) == "verify_merkle_proof":
                a = [q.norm(x) for x in e.args]
                good = nm(a[0]) == "value" and q.norm(a[0].args[2]) is root
                rep.verdict((True if good else False if pure(a[0], ("value",)) else None), "remember-commitment", w, f"verified against {pp(a[0], 3)}")
                rep.verdict(args_match(q, T("call", "x", (), *a), [None, pos, el(fn), proof]), "remember-args", w, f"verified {[pp(x, 3) for x in a[1:]]}")
            if last(e) == "remember_internal":
                a = [q.norm(x) for x in e.args]
                good = a[0] is root and a[1] is ht and to_path(q, a[2], pos, ht) and peel(q, a[3], "borrow") is pos and a[5] is q.norm(f(proof, "0"))
                rep.verdict(good, "remember-inserts", w, f"inserts {[pp(x, 3) for x in a]}")
                rep.verdict(args_match(q, T("call", "x", (), a[4]), [el(fn)]), "remember-inserts", w, f"inserts {pp(a[4], 3)}")
        state(rep, q, an, fn, "remember", root=lambda v: okof_or(v, "remember_internal", q) is not None and okof(v) is not None)
    for t, name in [(t, "forget") for t in TREES] + [("UniversalMerkleTree", "universal_forget")]:
        fn = next(iter(prog.find(C, name, t)), None)
        if fn is None:
            rep.unk("forget-wrapper", t, "no such method")
            continue
        an, q = rep.analyse(prog, fn, opaque=op)
        w = fn.path
        s, pos = arg(fn, 1), arg(fn, 2)
        ev = [e for e in an.events if last(e) == "forget_internal"]
        for e in ev:
            a = [q.norm(x) for x in e.args]
            rep.verdict(a[0] is f(s, "root") and a[1] is f(s, "height") and to_path(q, a[2], pos, f(s, "height")), "forget-args", w, f"forgets {[pp(x, 3) for x in a]}")
        rep.verdict(bool(ev) or None, "forget-args", w, "")
        for e in an.exits():
            for cs, d in fields_after(q, e, 1, fn):
                if d is None:
                    rep.unk("forget-state", w, pp(final(e, 1), 3))
                    continue
                ok = set(d) <= {"root"} and "root" in d and okof_or(d["root"], "forget_internal", q) is not None and d["root"].args[1] == "0"
                rep.verdict(True if ok else False, "forget-state", w, f"fields written {({k: pp(v, 3) for k, v in d.items()})}")
        results(rep, q, an, fn, "forget_internal", "forget-reports")


def state(rep, q, an, fn, facet, **want):
    """on success exactly these fields are written with these values, on a refusal nothing"""
    w = fn.path
    for e in an.exits():
        good = e in ok_exits(an)
        for cs, d in fields_after(q, e, 1, fn):
            if d is None:
                rep.unk(facet + "-state", w, pp(final(e, 1), 3))
            elif not good:
                rep.verdict(not d, facet + "-refused", w, f"a refused call changes {sorted(d)}")
            else:
                rep.verdict(set(d) == set(want) and all(want[k](v) for k, v in d.items()), facet + "-state", w, f"fields written {({k: pp(v, 4) for k, v in d.items()})}")


def results(rep, q, an, fn, call, facet):
    """the kind reported to the caller is the kind found"""
    w = fn.path
    vs = [q.norm(v) for e in an.exits() for _, v in outcomes(q, e)]
    if all(v.op == "agg" for v in vs):
        miss = {"Ok", "NotInMemory", "NotFound"} - {v.args[1] for v in vs}
        rep.verdict(not miss, facet, w, f"{sorted(miss)} is never reported")
    for e in an.exits():
        for cs, v in outcomes(q, e):
            v = q.norm(v)
            if v.op != "agg":
                rep.verdict(True if okof_or(v, call, q) is not None else None, facet, w, pp(v, 4))
                continue
            k = v.args[1]
            kinds = set()
            for c, l in list(cs) + q.node_conds(e.id):
                if c.op == "disc" and okof_or(q.norm(c.args[0]), call, q) is not None:
                    m = dict(c.args[1])
                    kinds |= {m.get(str(l))} if not isinstance(l, tuple) else {x for i, x in m.items() if i not in {str(z) for z in l[1]}}
            rep.verdict(None if len(kinds) != 1 else kinds == {k}, facet, w, f"{sorted(kinds)} is reported as {k}")
            if k == "Ok":
                a, b = q.norm(v.args[3]), q.norm(v.args[4])
                ok = all(okof_or(x, call, q) is not None and x.op == "field" for x in (a, b)) and (a.args[1], b.args[1]) == ("0", "1")
                rep.verdict(True if ok else None, facet, w, pp(v, 4))


@check("M06", [C], """Lookups and the proofs they return. Decided: a position's path is its base-arity digits, least significant first; a lookup goes down along these digits; the proof gets at every
level the values of all children except the one on the path, in order, for found and absent elements; an empty subtree yields one empty level per remaining level; forgotten positions are
reported as such and never as absent; iteration and collection visit all children left to right with the proof of the leaf reached.""", floor=6)
def m06(rep, prog):
    hid = lambda g: g.name in NODE_OPAQUE
    fn = rep.anchor(prog, C, "lookup_internal", NODE)
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=hid)
        w = fn.path
        S, ht = arg(fn, 1), arg(fn, 2)
        D = q.norm(digit(fn, 3, 2))
        ch = f(T("as", S, "Branch"), "children")
        for e in descend(rep, an, q, fn, "lookup-descends", (3,)):
            c = q.norm(e.args[0])
            rep.verdict(True if c is q.norm(T("index", ch, D)) else False if c.op == "index" and pure(c) else None, "lookup-branch", w, f"recursion into {pp(c, 4)}")
        for e in an.exits():
            for cs, v in outcomes(q, e, split=True):
                lookup_result(rep, q, fn, w, "lookup", list(cs) + q.node_conds(e.id), v, S, ht, D, fn.name)
    op = lambda g: g.name in INTERNAL
    for t, name in [(t, "lookup") for t in TREES] + [("UniversalMerkleTree", "universal_lookup")]:
        for fn in prog.find(C, name, t):
            an, q = rep.analyse(prog, fn, opaque=op)
            s, pos = arg(fn, 1), arg(fn, 2)
            ev = [e for e in an.events if last(e) == "lookup_internal"]
            rep.verdict(bool(ev) or None, "lookup-args", fn.path, "")
            for e in ev:
                a = [q.norm(x) for x in e.args]
                rep.verdict(a[0] is f(s, "root") and a[1] is f(s, "height") and to_path(q, a[2], pos, f(s, "height")), "lookup-args", fn.path, f"looks up {[pp(x, 3) for x in a]}")
            results(rep, q, an, fn, "lookup_internal", "lookup-reports")
    digits(rep, prog)
    collecting(rep, prog)


def digits(rep, prog):
    n = 0
    for fn in prog.find(C, "to_traversal_path", trait="ToTraversalPath"):
        an, q = rep.analyse(prog, fn)
        w = f"{fn.self}: {fn.path}"
        n += 1
        S, ht = arg(fn, 1), arg(fn, 2)
        for _, v in returned(q, an.exits()):
            r = q.loop_phi(v) if v.op == "phi" else None
            if r is None:
                rep.verdict(False if array_of(v) is not None else None, "path-digits", w, pp(v, 5))
                continue
            d = q.loop_domain(r[0])
            d = q.norm(d) if d is not None else None
            ok = d is not None and d.op == "agg" and "Range" in d.args[0] and is_const(d.args[3], 0) and d.args[4] is ht
            rep.verdict(True if ok else None if d is None or d.op not in ("agg", "rangei") else False, "path-length", w, f"one digit per {pp(d, 4) if d is not None else '?'}")
            for s in r[2]:
                s = q.norm(s)
                if s.op not in ("push", "vinsert") or s.args[0] is not v:
                    rep.unk("path-digits", w, pp(s, 4))
                    continue
                if s.op == "vinsert":
                    rep.fail("path-order", w, "digits are not in least-significant-first order")
                    continue
                x = strip_num(q, s.args[1])
                if x.op != "bin" or x.args[0] != "Rem":
                    rep.verdict(None if x.op != "bin" else False, "path-digits", w, pp(x, 4))
                    continue
                cur, mod = q.norm(x.args[1]), strip_num(q, x.args[2])
                rep.verdict(mod is ARITY, "path-digits", w, f"a digit is the remainder modulo {pp(mod, 3)}")
                rr = q.loop_phi(strip_num(q, cur)) if strip_num(q, cur).op == "phi" else None
                if rr is None:
                    rep.verdict(False if cur is S else None, "path-shift", w, pp(cur, 4))
                    continue
                good = all(strip_num(q, i) is S for i in rr[1])
                st = [strip_num(q, y) for y in rr[2]]
                good2 = all(y.op == "bin" and y.args[0] == "Div" and strip_num(q, y.args[1]) is strip_num(q, cur) and strip_num(q, y.args[2]) is ARITY for y in st)
                rep.verdict(True if good and good2 else False if all(y.op == "bin" for y in st) else None, "path-shift", w, f"the position goes from {[pp(i, 3) for i in rr[1]]} to {[pp(y, 3) for y in st]}")
    rep.verdict(n >= 10 or None, "path-impls", "ToTraversalPath", f"{n} implementations")


def strip_num(q, t):
    t = q.norm(t)
    while True:
        if t.op in ("cast", "conv"):
            t = q.norm(t.args[0])
        elif t.op == "call" and nm(t) in ("to_usize", "to_u64", "into", "clone", "borrow", "into_bigint") and len(t.args) >= 3:
            t = q.norm(t.args[2])
        elif t.op == "field" and t.args[0].op == "as" and t.args[0].args[1] == "Some":
            t = q.norm(t.args[0].args[0])
        elif t.op == "iop" and t.args[0] in ("rem", "div"):
            t = T("bin", {"rem": "Rem", "div": "Div"}[t.args[0]], *t.args[1:])
        elif t.op == "call" and nm(t) in ("rem", "div", "rem_assign", "div_assign") and len(t.args) == 4:
            t = T("bin", "Rem" if "rem" in nm(t) else "Div", q.norm(t.args[2]), q.norm(t.args[3]))
        elif t.op == "out" and t.args[0].op == "call" and nm(t.args[0]) in ("rem_assign", "div_assign"):
            t = t.args[0]
        else:
            return t


def collecting(rep, prog):
    hid = lambda g: g.name in NODE_OPAQUE
    fn = rep.anchor(prog, C, "collect_all_with_proofs", NODE)
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=hid)
        w = fn.path
        S, ht, cur, col = (arg(fn, i) for i in range(1, 5))
        ch = f(T("as", S, "Branch"), "children")
        for e in an.events:
            if last(e) == fn.name:
                a = [q.norm(x) for x in e.args]
                h = loop_of(an, e.node.id)
                d = q.loop_domain(h) if h is not None else None
                d = q.norm(d) if d is not None else None
                full = d is not None and (d is ch or d.op == "enumerate" and d.args[0] is ch)
                rep.verdict(True if full else False if d is not None and d.op in ("rev", "skip", "take") else None, "collect-order", w, f"children visited {pp(d, 4) if d is not None else '?'}")
                rep.verdict(True if a[0].op in ("elem", "index") and a[0].args[0] is ch else None, "collect-child", w, pp(a[0], 3))
                rep.verdict(True if a[1] is q.norm(minus1(ht)) else False if pure(a[1]) else None, "collect-height", w, f"recursion with height {pp(a[1], 3)}")
                # the level's values: all children except this one
                st = a[2]
                lv = None
                if st.op == "store" and len(st.args[1]) == 1 and st.args[1][0][0] == "idx":
                    lv = q.norm(st.args[2])
                    rep.verdict(True if q.norm(st.args[1][0][1]) is q.norm(minus1(ht)) else False, "collect-level", w, f"level {pp(st.args[1][0][1], 3)} is filled")
                if lv is None:
                    collect_copies(rep, q, an, w, e, st, ch, ht)
            if last(e) == "push":
                x = q.norm(e.args[1])
                if x.op == "agg" and x.args[0] == "tuple":
                    ok = q.norm(x.args[3]) is f(T("as", S, "Leaf"), "pos") and q.norm(x.args[4]) is f(T("as", S, "Leaf"), "elem")
                    pr = q.norm(x.args[5])
                    ok2 = pr.op == "agg" and q.norm(pr.args[3]) is cur
                    rep.verdict(True if ok and ok2 else False if pure(x) else None, "collect-leaf", w, pp(x, 4))
    for t in TREES:
        for fn in prog.find(C, "collect_leaves_with_proofs", t):
            an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "collect_all_with_proofs")
            s = arg(fn, 1)
            for e in an.events:
                if last(e) == "collect_all_with_proofs":
                    a = [q.norm(x) for x in e.args]
                    rep.verdict(a[0] is f(s, "root") and a[1] is f(s, "height"), "collect-args", fn.path, f"{[pp(x, 3) for x in a[:2]]}")
                    p = a[2]
                    good = p.op == "fill" and p.args[1] is f(s, "height") and q.norm(p.args[0]).op == "fill" and q.norm(q.norm(p.args[0]).args[1]) is q.norm(minus1(ARITY))
                    rep.verdict(True if good else False if p.op == "fill" and q.norm(p.args[0]).op == "fill" and pure(q.norm(p.args[1])) and pure(q.norm(q.norm(p.args[0]).args[1])) else None, "collect-args", fn.path, pp(p, 4))
    for it in ("MerkleTreeIter", "MerkleTreeIntoIter"):
        fn = rep.anchor(prog, C, "next", it)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn)
        w = fn.path
        ps = [e for e in an.events if last(e) == "push"]
        pops = [e for e in an.events if last(e) == "pop"]
        rep.verdict(bool(ps) and bool(pops) or None, "iter-stack", w, f"{len(ps)} pushes, {len(pops)} pops")
        for e in ps:
            x = peel(q, e.args[1], "borrow")
            h = loop_of(an, e.node.id)
            d = q.loop_domain(h) if h is not None else None
            d = q.norm(d) if d is not None else None
            base, rev, kinds = d, 0, None
            while base is not None and base.op in ("filter", "rev", "enumerate"):
                rev += base.op == "rev"
                if base.op == "filter":
                    kinds = base.args[1]
                base = q.norm(base.args[0])
            node = base.args[0].args[0] if base is not None and base.op == "field" and base.args[0].op == "as" else None
            if node is None or base.args[1] != "children":
                rep.verdict(False if base is not None and base.op in ("skip", "take", "slice", "takewhile", "skipwhile") else None, "iter-children", w, pp(d, 5) if d is not None else "?")
                continue
            rep.verdict(rev % 2 == 1, "iter-order", w, "children are pushed first to last, so they are visited last to first")
            if kinds is not None:
                ks = iter_kinds(q, kinds)
                rep.verdict(None if ks is None else {"Branch", "Leaf"} <= ks, "iter-kinds", w, f"only {sorted(ks or ())} children are visited")
        for e in an.exits():
            for cs, v in outcomes(q, e):
                v = q.norm(v)
                if v.op == "agg" and v.args[1] == "Some":
                    x = q.norm(payload(v))
                    ok = x.op == "agg" and all(y.op == "field" and y.args[0].op == "as" and y.args[0].args[1] == "Leaf" for y in map(q.norm, x.args[3:5])) and [q.norm(y).args[1] for y in x.args[3:5]] == ["pos", "elem"]
                    rep.verdict(True if ok else None, "iter-item", w, pp(x, 4))
                elif v.op == "agg" and v.args[1] == "None":
                    end = any(c.op == "disc" and nm(q.norm(c.args[0])) == "pop" and dict(c.args[1]).get(str(l)) == "None" for c, l in list(cs) + q.node_conds(e.id))
                    rep.verdict(True if end else False, "iter-end", w, "iteration ends before the stack is empty")


def iter_kinds(q, t):
    """variants for which a filter on children holds"""
    t = q.an.simp(t)
    if t.op != "phi" or t.args[0] not in q.an.loops():
        return None
    out = set()
    for path in q.loop_paths(t.args[0]) or []:
        v = q.an.phis[t].get(path[-1])
        v = q.an.simp(v) if v is not None else None
        n = len(path) - 1
        while v is not None and v.op == "phi" and n > 0 and v.args[0] in path:
            k = path.index(v.args[0])
            v = q.an.simp(q.an.phis[v].get(path[k - 1])) if k > 0 and q.an.phis[v].get(path[k - 1]) is not None else None
        if v is None or not is_const(v, (0, 1)):
            return None
        if is_const(v, 1):
            hit = False
            for x, l in q.conds_on(path, t.args[0]):
                if x.op == "disc" and "Empty" in dict(x.args[1]).values():
                    m = dict(x.args[1])
                    out |= {m.get(str(l))} if not isinstance(l, tuple) else {z for i, z in m.items() if i not in {str(y) for y in l[1]}}
                    hit = True
            if not hit:
                return {"Empty", "Branch", "Leaf", "ForgottenSubtree"}
    return out


def collect_copies(rep, q, an, w, e, st, ch, ht):
    """the level is filled by copies around the child's own place: tabulated for three and four children"""
    H = q.norm(minus1(ht))
    base, ops = st, []
    while base.op == "store" and base.args[1][0][0] == "idx":
        ops.append((base.args[1], q.norm(base.args[2])))
        base = q.norm(base.args[0])
    ops.reverse()
    idx = {x for p, v in ops for y in list(p[1][1:]) + [v] if isinstance(y, Term) for x in find(q, y, lambda t: t.op == "idx" and t.args[0] is ch, False)} if ops and all(len(p) == 2 for p, _ in ops) else set()
    if not ops or len(idx) != 1:
        rep.unk("collect-level", w, pp(st, 4))
        return
    i = next(iter(idx))
    bad, unk = None, False
    for n in (3, 4):
        for k in range(n):
            env = {i: k, q.nlen(ch): n, ARITY: n}
            out = [None] * (n - 1)
            for p, v in ops:
                if q.norm(p[0][1]) is not H:
                    bad = f"level {pp(p[0][1], 3)} is filled"
                    continue
                src = q.norm(v.args[0].args[3]) if v.op == "out" and nm(v.args[0]) in ("copy_from_slice", "clone_from_slice") else None
                lo = ieval(q, p[1][1], env) if p[1][0] == "rng" else None
                hi = n - 1 if p[1][0] == "rng" and p[1][2].op == "end" else ieval(q, p[1][2], env) if p[1][0] == "rng" else None
                got = slots(q, src, ch, n, env) if src is not None else None
                if lo is None or hi is None or got is None:
                    unk = True
                    continue
                if len(got) != hi - lo:
                    bad = f"with {n} children, child {k}: a copy does not fit"
                    continue
                out[lo:hi] = got
            if not unk and not bad and out != [j for j in range(n) if j != k]:
                bad = f"with {n} children the proof of child {k} gets the values of {out}"
    rep.verdict(False if bad else None if unk else True, "collect-level", w, bad or "")


def slots(q, t, ch, n, env):
    """which children's values a slice holds"""
    t = q.norm(t)
    if t.op == "slice":
        v = slots(q, t.args[0], ch, n, env)
        lo = ieval(q, t.args[1], env)
        hi = n if t.args[2].op == "end" else ieval(q, t.args[2], env)
        return None if v is None or lo is None or hi is None else v[lo:hi]
    ew = elementwise(q, t)
    if ew is not None and q.norm(ew[0]) is ch and nm(q.norm(ew[1])) == "value":
        return list(range(n))
    return None


# ---------------------------------------------------------------- capacity and counts
@check("M07", [C], """Capacity and counts. Decided: building refuses more elements than arity^height, computed without wrap-around; the height chosen when none is given is the least
one that fits (loop recurrences height+1, capacity*arity from 0 and 1, condition capacity < n); the capacity reported is arity^height; appending starts at the current count, adds exactly what
was inserted to the count and refuses when elements are left over; updating adds the change reported for the node; building from pairs applies every pair in order; a refused update leaves the tree
unchanged.""", floor=6)
def m07(rep, prog):
    for name in ("build_tree_internal", "build_light_weight_tree_internal"):
        fn = rep.anchor(prog, C, name)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in NODE_OPAQUE)
        w = fn.path
        facts, _ = accept_facts(an, q)
        n = q.nlen(arg(fn, 2))
        isn = lambda t: strip_num(q, t) is n
        ispow = lambda t: pow_of(q, t)
        opt = arg(fn, 1)

        def cap(p):
            if p[0] not in ("Le", "Ge", "Lt", "Gt"):
                return False
            a, b = p[1], p[2]
            if not (isinstance(a, Term) and isinstance(b, Term)):
                return False
            if p[0] in ("Ge", "Gt"):
                a, b = b, a
            if isn(a) and ispow(b):
                return p[0] in ("Le", "Ge")
            return False
        expect(rep, facts, "capacity", w, cap, "more elements than the capacity are accepted")
        pows = [e for e in an.events if last(e) in ("pow", "checked_pow")]
        wrap = [e for e in an.events if last(e) in ("wrapping_pow", "overflowing_pow") or last(e) == "pow" and "num_bigint" not in e.name and "BigUint" not in str(e.name) + str(e.gargs if hasattr(e, "gargs") else "")]
        rep.verdict(not wrap or None, "capacity-exact", w, f"{[e.name for e in wrap]}")
        # least height
        hs = [h for h in an.loops() if q.loop_domain(h) is None]
        found = False
        for h in hs:
            ph = [p for p in an.phis if p.args[0] == h]
            caps = [p for p in ph if all(s.op == "bin" and s.args[0] == "Mul" for s in map(q.norm, (q.loop_phi(p) or (0, [], [const(0)]))[2]))]
            hts = [p for p in ph if all(s.op == "bin" and s.args[0] == "Add" and const(1) in s.args[1:] for s in map(q.norm, (q.loop_phi(p) or (0, [], [const(0)]))[2]))]
            if not caps:
                for nid in an.loops()[h][0]:
                    nn = an.nodes[nid]
                    cond = q.norm(nn.cond[0]) if nn.cond is not None and any(x not in an.loops()[h][0] for x in nn.succ) else None
                    if cond is not None and cond.op == "bin" and any(isn(x) for x in cond.args[1:]):
                        if any(strip_num(q, x).op == "const" for x in cond.args[1:]):
                            rep.fail("least-height", w, "the capacity does not grow")
                            found = True
                        grown = [p for p in ph if any(strip_num(q, x) is p for x in cond.args[1:])]
                        if grown and all(q.norm(x).op == "bin" for p in grown for x in (q.loop_phi(p) or (0, [], [const(0)]))[2]):
                            rep.fail("least-height", w, f"the capacity goes to {[pp(x, 3) for p in grown for x in q.loop_phi(p)[2]]}")
                            found = True
                continue
            found = True
            c = caps[0]
            if not hts and any(q.norm(x).op == "const" or x in ph for e in ok_exits(an) for _, v in outcomes(q, e) for v in [q.norm(v)] if v.op == "agg" and v.args[1] == "Ok"
                               for v in [q.norm(payload(v))] if v.op == "agg" and len(v.args) > 4 for x in alts(q, v.args[4])):
                rep.fail("least-height", w, "the height does not grow with the capacity")
            _, ini, stp = q.loop_phi(c)
            rep.verdict(all(is_const(i, 1) for i in ini) and all({q.norm(x) for x in q.norm(s).args[1:]} >= {c} and any(strip_num(q, x) is ARITY for x in q.norm(s).args[1:]) for s in stp), "least-height", w,
                        f"capacity goes from {[pp(i, 2) for i in ini]} to {[pp(s, 3) for s in stp]}")
            for p in hts:
                _, ini, stp = q.loop_phi(p)
                rep.verdict(all(is_const(i, 0) for i in ini), "least-height", w, f"the height starts at {[pp(i, 2) for i in ini]}")
            cond = q.norm(an.nodes[h].cond[0]) if an.nodes[h].cond else None
            for nid in an.loops()[h][0]:
                nn = an.nodes[nid]
                if nn.cond is not None and any(s not in an.loops()[h][0] for s in nn.succ):
                    cond = q.norm(nn.cond[0])
                    stay = [l for s, ls in nn.succ.items() if s in an.loops()[h][0] for l in ls]
                    lab = q.label(nn, stay[0]) if stay else None
                    if cond.op == "bin" and cond.args[0] in ("Lt", "Le", "Gt", "Ge", "Ne"):
                        a, b = q.norm(cond.args[1]), q.norm(cond.args[2])
                        opn = cond.args[0]
                        if isn(a) and strip_num(q, b) is c:
                            a, b, opn = b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Ne": "Ne"}[opn]
                        if strip_num(q, a) is c and isn(b):
                            truth = lab == 1 or isinstance(lab, tuple) and 0 in lab[1]
                            eff = opn if truth else {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}.get(opn)
                            rep.verdict(eff == "Lt", "least-height", w, f"levels are added while the capacity {eff} the number of elements")
        rep.verdict(True if found else None, "least-height", w, "no loop computing the least height")
    op = lambda g: g.name in INTERNAL
    for t, inner in (("MerkleTree", "extend_internal"), ("LightWeightMerkleTree", "extend_and_forget_internal")):
        fn = rep.anchor(prog, C, "extend", t)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=op)
        w = fn.path
        s = arg(fn, 1)
        num, ht = f(s, "num_leaves"), f(s, "height")
        facts, _ = accept_facts(an, q)
        expect(rep, facts, "extend-leftover", w, lambda p: p[0] == "is" and nm(p[1]) in ("peek", "next") and p[2] == frozenset({"None"}), "left over elements are silently dropped")
        for e in an.events:
            if last(e) == inner:
                a = [q.norm(x) for x in e.args]
                rep.verdict(a[0] is f(s, "root") and a[1] is ht and a[2] is num and is_const(a[4], 1), "extend-args", w, f"{[pp(x, 3) for x in a]}")
                rep.verdict(True if to_path(q, a[3], num, ht) else None, "extend-args", w, pp(a[3], 3))
        if not any(last(e) == inner for e in an.events):
            rep.unk("extend-args", w, "no insertion")
        for e in an.exits():
            for cs, d in fields_after(q, e, 1, fn):
                if d is None:
                    rep.unk("extend-state", w, pp(final(e, 1), 3))
                elif d:
                    rep.verdict(counted(q, d, num, inner, "1"), "extend-state", w, f"fields written {({k: pp(v, 4) for k, v in d.items()})}")
                elif e in ok_exits(an):
                    rep.fail("extend-state", w, "nothing is stored")
    for t in ("MerkleTree", "LightWeightMerkleTree"):
        fn = rep.anchor(prog, C, "push", t)
        if fn is not None:
            an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "extend")
            ev = [e for e in an.events if last(e) == "extend"]
            rep.verdict(bool(ev) or None, "push", fn.path, "")
            for e in ev:
                x = q.norm(e.args[1])
                xs = array_of(x)
                rep.verdict(None if xs is None else len(xs) == 1 and peel(q, xs[0], "borrow") is arg(fn, 2), "push", fn.path, pp(x, 3))
        fn = rep.anchor(prog, C, "from_elems", t)
        if fn is not None:
            bn = "build_tree_internal" if t == "MerkleTree" else "build_light_weight_tree_internal"
            an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == bn)
            for _, v in returned(q, ok_exits(an)):
                g = {k: q.norm(x) for k, x in parts_of(v).items()}
                ok = all(k in g and okof_or(g[k], bn, q) is not None and g[k].args[1] == i for k, i in (("root", "0"), ("height", "1"), ("num_leaves", "2")))
                rep.verdict(True if ok else None if not all(pure(x, (bn,)) for x in g.values()) else False, "from-elems", fn.path, pp(v, 4))
            for e in an.events:
                if last(e) == bn:
                    rep.verdict(q.norm(e.args[0]) is arg(fn, 1) and q.norm(e.args[1]) is arg(fn, 2), "from-elems", fn.path, pp(e.args[0], 3))
    fn = rep.anchor(prog, C, "update_with", "UniversalMerkleTree")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=op)
        s = arg(fn, 1)
        update_call(rep, an, q, fn, s)
        state(rep, q, an, fn, "update", root=lambda v: okof_or(v, "update_with_internal", q) is not None and v.args[1] == "0",
              num_leaves=lambda v: plus(q, v, f(s, "num_leaves"), "update_with_internal", "1"))
        for _, v in returned(q, ok_exits(an)):
            rep.verdict(True if okof_or(v, "update_with_internal", q) is not None and v.args[1] == "2" else None, "update-reports", fn.path, pp(v, 3))
    fn = rep.anchor(prog, C, "persistent_update_with", "UniversalMerkleTree")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=op)
        s = arg(fn, 1)
        update_call(rep, an, q, fn, s)
        for _, v in returned(q, ok_exits(an)):
            g = {k: q.norm(x) for k, x in parts_of(v).items()} if v.op == "agg" else {}
            ok = bool(g) and okof_or(g["root"], "update_with_internal", q) is not None and g["height"] is f(s, "height") and plus(q, g["num_leaves"], f(s, "num_leaves"), "update_with_internal", "1")
            minus = bool(g) and (lambda t: t.op == "bin" and t.args[0] == "Sub" and any(okof_or(x, "update_with_internal", q) is not None for x in map(q.norm, t.args[1:])))(strip_num(q, g["num_leaves"]))
            rep.verdict(True if ok else False if minus or g and all(pure(g[k], ("update_with_internal",)) for k in ("root", "height", "num_leaves")) else None, "update-state", fn.path, pp(v, 4))
    fn = rep.anchor(prog, C, "from_kv_set", "UniversalMerkleTree")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in ("update", "update_with"))
        ev = [e for e in an.events if last(e) == "update"]
        rep.verdict(bool(ev) or None, "from-pairs", fn.path, "")
        facts, _ = accept_facts(an, q)
        for e in ev:
            h = loop_of(an, e.node.id)
            d = q.loop_domain(h) if h is not None else None
            d = q.norm(d) if d is not None else None
            rep.verdict(True if d is arg(fn, 2) else False if d is not None and d.op in ("rev", "skip", "take", "filter", "takewhile", "skipwhile") else None, "from-pairs", fn.path, pp(d, 3) if d is not None else "?")
            k, v = peel(q, e.args[1], "borrow"), peel(q, e.args[2], "borrow")
            ok = k.op == v.op == "field" and k.args[0] is v.args[0] and (k.args[1], v.args[1]) == ("0", "1")
            rep.verdict(True if ok else None, "from-pairs", fn.path, f"{pp(k, 3)} {pp(v, 3)}")
            rep.verdict(every_iteration(q, h, e.node.id), "from-pairs-all", fn.path, "some pairs are skipped")
        expect(rep, facts, "from-pairs-fails", fn.path, lambda p: p[0] == "is" and nm(p[1]) == "update" and p[2] == frozenset({"Ok"}), "a failing update is ignored")
    for name, how in (("update", "Some"), ("remove", "None")):
        for fn in prog.find(C, name):
            if fn.trait and "UniversalMerkleTreeScheme" in str(fn.trait) or "UniversalMerkleTreeScheme" in fn.path:
                an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in ("update_with", "persistent_update_with"))
                for e in an.events:
                    if last(e) in ("update_with", "persistent_update_with"):
                        rep.verdict(True if peel(q, e.args[1], "borrow") is arg(fn, 2) and q.norm(e.args[0]) is arg(fn, 1) else None, "update-wrapper", fn.path, pp(e.args[1], 3))
    for t in TREES:
        for name, want in (("num_leaves", "num_leaves"), ("height", "height")):
            for fn in prog.find(C, name, t):
                an, q = rep.analyse(prog, fn)
                for _, v in returned(q, an.exits()):
                    rep.verdict(v is f(arg(fn, 1), want), "accessor", fn.path, pp(v, 3))
        for fn in prog.find(C, "commitment", t):
            an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "value")
            for _, v in returned(q, an.exits()):
                rep.verdict(True if nm(v) == "value" and q.norm(v.args[2]) is f(arg(fn, 1), "root") else None, "accessor", fn.path, pp(v, 3))
        for fn in prog.find(C, "capacity", t):
            an, q = rep.analyse(prog, fn)
            for _, v in returned(q, an.exits()):
                rep.verdict(True if pow_of(q, v, f(arg(fn, 1), "height")) else None if not pow_of(q, v) else False, "capacity-reported", fn.path, pp(v, 3))


def update_call(rep, an, q, fn, s):
    ev = [e for e in an.events if last(e) == "update_with_internal"]
    rep.verdict(bool(ev) or None, "update-args", fn.path, "")
    for e in ev:
        a = [q.norm(x) for x in e.args]
        ok = a[0] is f(s, "root") and a[1] is f(s, "height") and peel(q, a[2], "borrow") is arg(fn, 2) and to_path(q, a[3], arg(fn, 2), f(s, "height")) and a[4] is arg(fn, 3)
        rep.verdict(ok, "update-args", fn.path, f"{[pp(x, 3) for x in a]}")


def plus(q, v, base, call, i):
    """base + component i of the call's result"""
    v = strip_num(q, v)
    if v.op != "bin" or v.args[0] != "Add":
        return False
    xs = [strip_num(q, x) for x in v.args[1:]]
    return base in xs and any(okof_or(x, call, q) is not None and x.op == "field" and x.args[1] == i for x in xs if x is not base)


def counted(q, d, num, call, i):
    return set(d) == {"root", "num_leaves"} and okof_or(d["root"], call, q) is not None and d["root"].args[1] == "0" and plus(q, d["num_leaves"], num, call, i)


def pow_of(q, t, ht=None):
    t = q.norm(t)
    t = t.args[0].args[0] if t.op == "field" and t.args[0].op == "as" else t
    t = q.norm(t)
    if t.op == "call" and nm(t) == "ok_or_else":
        t = q.norm(t.args[2])
    if t.op == "call" and nm(t) in ("pow", "checked_pow") and len(t.args) == 4:
        b = strip_num(q, t.args[2])
        return (b is ARITY or b.op == "kconst" and b.args[0].endswith("ARITY")) and (ht is None or strip_num(q, t.args[3]) is ht)
    if t.op in ("iop", "pow") and t.args[0] in ("pow", "checked_pow"):
        b = strip_num(q, t.args[1])
        return (b is ARITY or b.op == "kconst" and b.args[0].endswith("ARITY")) and (ht is None or strip_num(q, t.args[2]) is ht)
    return False


def every_iteration(q, h, nid):
    """is the node on every path through an iteration"""
    if h is None:
        return None
    ps = q.loop_paths(h)
    if not ps:
        return None
    return all(nid in p for p in ps)
