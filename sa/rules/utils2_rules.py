"""jf-utils: products, serialisation helpers, parallel iteration; jf-prf."""
from core import *
from engine import *
from q import *
from canon import Canon
from kform import K, KForm
from utils_rules import MOVES, nm, case_list, U


def ok_exits(an):
    return [n for n in an.exits() if not (n.exit.op == "agg" and n.exit.args[1] in ("Err", "None"))]


def payload(v):
    return v.args[3] if v.op == "agg" and v.args[1] in ("Ok", "Some") else v


def elementwise(q, v):
    """(domain, body, site) of a sequence built element by element"""
    ps = q.seq(v)
    if len(ps) == 1 and ps[0][0] == "each":
        return ps[0][1], ps[0][2]
    if len(ps) == 1 and ps[0][0] == "loop" and len(ps[0][2]) == 1 and ps[0][2][0][0] == "one":
        return ps[0][1], ps[0][2][0][1]
    return None


def covers(q, kf, dom, vecs):
    """does a loop domain visit every position of all the vectors (which are known to have equal length), in order"""
    if dom is None:
        return None
    while dom.op == "enumerate":
        dom = dom.args[0]
    if dom.op == "zip":
        r = [covers(q, kf, d, vecs) for d in dom.args[:2]]
        return False if False in r else None if None in r else True
    if dom in vecs:
        return True
    lens = [q.nlen(v) for v in vecs]
    common = lambda h: h in lens or h.op == "min" and all(x in lens for x in h.args)
    if dom.op == "slice" and dom.args[1] is const(0) and common(dom.args[2]) or dom.op == "take" and common(dom.args[1]):
        return covers(q, kf, dom.args[0], vecs)
    if dom.op in ("skip", "take", "slice", "rev", "stepby", "filter", "takewhile", "skipwhile"):
        return False if dom.args[0] in vecs or dom.args[0].op == "zip" and covers(q, kf, dom.args[0], vecs) else None
    if dom.op == "agg" and dom.args[0].split("::")[-1] == "Range":
        lo, hi = dom.args[3], dom.args[4]
    elif dom.op == "ridx" and not dom.args[3]:
        lo, hi = dom.args[0], dom.args[1]
    else:
        return None
    return lo is const(0) and common(hi)


@check("U06", [U], """Value-flow summaries of the element-wise product and the multi-pairing wrapper. Decided: the product's success exits are guarded on every path by equality of the
two lengths, every position is visited once in order, and the element is a product of exactly the two operands at the same position; the pairing receives, for every position, the G1
and G2 element of that same position, nothing else.""", floor=2)
def u06(rep, prog):
    fn = rep.anchor(prog, U, "hadamard_product")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        kf = KForm(q)
        w = fn.path
        A, B = T("arg", 1, fn.locals[1][1]), T("arg", 2, fn.locals[2][1])
        oks = ok_exits(an)
        ok, seen = False, False
        for g in an.guards(oks):
            p = q.accept(g)
            if p[0] in NEG and {p[1], p[2]} == {q.nlen(A), q.nlen(B)}:
                seen = True
                ok = ok or (p[0] == "Eq" and g.must)
        rep.verdict(ok, "length-guard", w, "operands of different length are not rejected on every path" if not seen else "the length guard does not require equality")
        for e in oks:
            for _, v in case_list(q, e):
                v = payload(q.norm(v))
                ew = elementwise(q, v)
                if ew is None:
                    if v.op in ("skip", "take", "slice", "trunc", "rev"):
                        rep.fail("all-positions", w, f"result is {pp(v, 3)}")
                    else:
                        rep.unk("product", w, pp(v, 4))
                    continue
                dom, body = ew
                rep.verdict(covers(q, kf, dom, [A, B]), "all-positions", w, f"positions visited: {pp(dom, 4)}")
                r = kf.ring(body)
                atoms = [a for m in r for a in m]
                if not all(a.op == "index" and a.args[0] in (A, B) for a in atoms):
                    rep.verdict(False if body.op == "elem" else None, "product", w, pp(body, 4))
                    continue
                good = len(r) == 1 and list(r.values()) == [1] and len(atoms) == 2 and {a.args[0] for a in atoms} == {A, B}
                rep.verdict(good, "product", w, f"element is {pp(body, 5)}, not the product of the two operands")
                if good:
                    rep.verdict(atoms[0].args[1] is atoms[1].args[1], "same-position", w, "operands at different positions are multiplied")
    fn = rep.anchor(prog, U, "multi_pairing")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        kf = KForm(q)
        w = fn.path
        A, B = T("arg", 1, fn.locals[1][1]), T("arg", 2, fn.locals[2][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                v = q.norm(v)
                if nm(v) != "multi_pairing" or len(v.args) != 4:
                    if nm(v) == "final_exponentiation" or find(q, v, lambda t: nm(t) in ("multi_miller_loop", "pairing")):
                        rep.unk("pairing", w, pp(v, 3))
                    else:
                        rep.unk("pairing", w, pp(v, 3))
                    continue
                for i, (x, src) in enumerate(((v.args[2], A), (v.args[3], B))):
                    x = q.norm(x)
                    if x is src:
                        rep.ok("pairing-operand", w)
                        continue
                    ew = elementwise(q, x)
                    if ew is None:
                        rep.verdict(False if x.op in ("skip", "take", "slice", "rev", "trunc") else None, "pairing-operand", w, f"operand {i + 1} is {pp(x, 3)}")
                        continue
                    dom, body = ew
                    rep.verdict(covers(q, kf, dom, [A, B]), "pairing-all", w, f"positions visited: {pp(dom, 4)}")
                    b = kf(body)
                    while b.op == "conv" or nm(b) in ("from", "into", "prepare_g1", "prepare_g2"):
                        b = b.args[0] if b.op == "conv" else b.args[2]
                    if b.op == "index" and b.args[0] in (A, B):
                        rep.verdict(b.args[0] is src and b.args[1].op == "K", "pairing-operand", w, f"operand {i + 1} of the pairing is {pp(b, 4)}")
                    else:
                        rep.verdict(False if b.op in ("un", "bin") and not kf.ring(b) == {(b,): 1} else None, "pairing-operand", w, f"operand {i + 1} of the pairing is {pp(b, 4)}")


# ------------------------------------------------------------------------ U07
@check("U07", [U, "jf_witness"], """Value-flow summaries of the serialisation helpers, including expansions of the exported macros in a witness crate. Decided: writer and reader use the same
tag string and the reader's decoding is reached only behind tag equality on every path; both use the compressed encoding of the whole element and the whole byte string; errors of either
step are returned, not swallowed; the byte wrapper and the conversion macros read back what was written in the same encoding.""", floor=5)
def u07(rep, prog):
    ser = rep.anchor(prog, U, "serialize", pred=lambda f: "canonical" in f.path)
    de = rep.anchor(prog, U, "deserialize", pred=lambda f: "canonical" in f.path)
    wtag = None
    modes = {}

    def mode(t):
        n = nm(t)
        return "compressed" if n in ("serialize_compressed", "deserialize_compressed", "deserialize_compressed_unchecked") else "uncompressed" if "uncompressed" in n else None
    SER = ("serialize_compressed", "serialize_uncompressed", "serialize_with_mode")
    DES = ("deserialize_compressed", "deserialize_uncompressed", "deserialize_compressed_unchecked", "deserialize_uncompressed_unchecked", "deserialize_with_mode")

    def written(an, q, t, x, w, facet):
        """t is the byte string produced by serialising x into an empty vector"""
        t = q.norm(t)
        if t.op == "out" and nm(t.args[0]) in SER:
            c = t.args[0]
            rep.verdict(q.norm(c.args[2]) is x, facet + "-value", w, f"serialises {pp(c.args[2], 3)} instead of the element")
            buf = q.norm(c.args[3])
            rep.verdict(q.seq(buf) == [] if buf.op in ("agg", "push", "ext", "fill") else None if buf.op != "call" else True, facet + "-buffer", w, f"bytes are appended to {pp(buf, 3)}")
            return mode(c)
        if t.op in ("slice", "trunc", "take", "skip", "push", "ext", "store", "rev", "clear", "resize"):
            rep.fail(facet + "-bytes", w, f"the serialised bytes are altered: {pp(t, 3)}")
            return None
        moved = sorted({nm(y) for y in an.subterms(t) if nm(y) in MOVES})
        rep.verdict(False if moved and t.op in ("phi", "out") else None, facet + "-bytes", w, f"the serialised bytes are altered ({', '.join(moved)}): {pp(t, 4)}")
        return None
    if ser is not None:
        an, q = rep.analyse(prog, ser)
        w = ser.path
        X = T("arg", 1, ser.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                v = q.norm(v)
                if v.op == "agg" and v.args[1] == "Err":
                    continue
                news = find(q, v, lambda t: nm(t) == "new" and "TaggedBase64" in t.args[0])
                if len(news) != 1:
                    rep.unk("tag-write", w, pp(v, 4))
                    continue
                tg = q.norm(news[0].args[2])
                wtag = tg.args[0] if tg.op == "const" else None
                modes["w"] = written(an, q, news[0].args[3], X, w, "write")
                sers = [g for g in an.guards([e]) if q.accept(g)[0] == "is" and nm(q.accept(g)[1]) in SER]
                rep.verdict(any(g.must and q.accept(g)[2] == frozenset({"Ok"}) for g in sers), "write-error", w, "a serialisation error is not propagated")
    if de is not None:
        an, q = rep.analyse(prog, de)
        w = de.path
        oks = [n for n in an.exits() if not (n.exit.op == "agg" and n.exit.args[1] == "Err")]
        rtag, eq, dcall = None, None, None
        for n in oks:
            for _, v in case_list(q, n):
                ds = find(q, q.norm(v), lambda t: nm(t) in DES)
                if len(ds) != 1:
                    rep.unk("read", w, pp(v, 4))
                    continue
                modes["r"] = mode(ds[0])
                src = q.norm(ds[0].args[2])
                while src.op == "call" and nm(src) in ("value", "as_ref", "as_slice"):
                    src = src.args[2]
                got = src.op == "field" and src.args[0].op == "as" and nm(src.args[0].args[0]) == "deserialize"
                rep.verdict(True if got else (False if src.op in ("slice", "skip", "take") else None), "read-bytes", w, f"decodes {pp(src, 4)}")
                pv = payload(q.norm(v))
                rep.verdict(True if pv.op == "field" and pv.args[0].op == "as" and pv.args[0].args[0] is ds[0] or pv is ds[0] else None, "read-value", w, f"returns {pp(pv, 4)}")
            for g in an.guards([n]):
                p = q.accept(g)
                if p[0] in ("Eq", "Ne") and any(nm(x) == "tag" for x in p[1:]):
                    c = [x for x in p[1:] if x.op == "const"]
                    if c:
                        rtag = c[0].args[0]
                    eq = p[0] == "Eq" and g.must or bool(eq)
                elif p[0] in ("true", "false") and nm(p[1]) in ("starts_with", "contains", "eq_ignore_ascii_case", "ends_with") and find(q, p[1], lambda x: nm(x) == "tag"):
                    eq = False
        rep.verdict(eq if eq is not None else False, "tag-check", w, "the tag is not required to be equal before decoding")
        if rtag is not None and wtag is not None:
            rep.verdict(rtag == wtag, "tag-agree", w, f"writer tag {wtag!r}, reader tag {rtag!r}")
        if modes.get("r") and modes.get("w"):
            rep.verdict(modes["r"] == modes["w"], "encoding-agree", w, f"written {modes['w']}, read {modes['r']}")
    # byte wrapper
    frm = rep.anchor(prog, U, "from", pred=lambda f: "CanonicalBytes" in (f.path or "") and f.trait and "From" in f.trait)
    wm = None
    if frm is not None:
        an, q = rep.analyse(prog, frm)
        w = frm.path
        X = T("arg", 1, frm.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                v = q.norm(v)
                if v.op == "agg" and len(v.args) == 4:
                    wm = written(an, q, v.args[3], X, w, "wrap")
                else:
                    rep.unk("wrap", w, pp(v, 4))
            gs = [g for g in an.guards([e]) if q.accept(g)[0] == "is" and nm(q.accept(g)[1]) in SER]
            rep.verdict(any(g.must and q.accept(g)[2] == frozenset({"Ok"}) for g in gs), "wrap-error", w, "a serialisation error is ignored and truncated bytes are returned")
    us = prog.find("jf_witness", "from")
    us = [f for f in us if f.trait and "From" in f.trait]
    if len(us) < 2:
        rep.fail("anchor", "jf_witness", "expansions of the reading macro not found")
    for f in us:
        an, q = rep.analyse(prog, f)
        w = "deserialize_canonical_bytes!"
        X = T("arg", 1, f.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                ds = find(q, q.norm(v), lambda t: nm(t) in DES)
                if len(ds) != 1:
                    rep.unk("unwrap", w, pp(v, 4))
                    continue
                if wm and mode(ds[0]):
                    rep.verdict(mode(ds[0]) == wm, "unwrap-encoding", w, f"written {wm}, read {mode(ds[0])}")
                rep.verdict(False if "unchecked" in nm(ds[0]) else True, "unwrap-validated", w, "bytes are decoded without validation")
                s = q.norm(ds[0].args[2])
                rep.verdict(True if s.op == "field" and s.args[0] is X else (False if s.op in ("slice", "skip", "take") else None), "unwrap-bytes", w, f"decodes {pp(s, 3)}")
    tb = rep.anchor(prog, "jf_witness", "bytes_of")
    if tb is not None:
        an, q = rep.analyse(prog, tb)
        w = "to_bytes!"
        X = T("arg", 1, tb.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                v = q.norm(v)
                if v.op == "agg" and v.args[1] == "Err":
                    continue
                m = written(an, q, payload(v), X, w, "bytes")
                if m:
                    rep.verdict(m == "compressed", "bytes-encoding", w, "to_bytes must use the compressed encoding")
                gs = [g for g in an.guards([e]) if q.accept(g)[0] == "is" and nm(q.accept(g)[1]) in SER]
                rep.verdict(any(g.must and q.accept(g)[2] == frozenset({"Ok"}) for g in gs), "bytes-error", w, "a serialisation error is ignored")


# ------------------------------------------------------------------------ U08
ALL = ["jf_aead", "jf_commitment", "jf_crhf", "jf_elgamal", "jf_merkle_tree", "jf_pcs", "jf_plonk", "jf_poseidon2", "jf_prf", "jf_relation", "jf_rescue", "jf_signature", "jf_utils", "jf_vrf"]


def summary(rep, prog, fn, full=False):
    # callees are compared on their own; only the iteration helpers and local closures are looked into
    an, q = rep.analyse(prog, fn, opaque=(lambda f: False) if full else (lambda f: not (f.id.startswith(fn.id) or "par_utils" in f.id)))
    c = Canon(q)
    out = []
    for n in sorted(an.exits(), key=lambda n: n.id):
        parts = [n.exit] + [n.end[k] for k in sorted((k for k in n.end if k[0] == 0 and k[1] < 0), key=lambda k: -k[1])]
        out.append(c.text(T("agg", "tuple", "", (), *parts)))
    return out, an


@check("U08", ALL, """Every crate is lowered twice, with and without the parallel feature. For every function whose lowered body differs between the two builds, the value-flow summaries
(returned values, values left behind mutable references; rayon and standard iterators share one model) are compared in canonical form and must be equal. The two iteration helpers are
also required to visit the whole slice in order, respectively chunks of the given size including a short last one.""", configs=("par", "seq"), floor=12)
def u08(rep, par, seq):
    for prog, cfg in ((par, "parallel"), (seq, "sequential")):
        for name in ("parallelizable_slice_iter", "parallelizable_chunks"):
            fn = rep.anchor(prog, U, name)
            if fn is None:
                continue
            an, q = rep.analyse(prog, fn)
            w = f"{fn.path} ({cfg})"
            D = T("arg", 1, fn.locals[1][1])
            for e in an.exits():
                for _, v in case_list(q, e):
                    v = q.norm(v)
                    if name == "parallelizable_slice_iter":
                        rep.verdict(True if v is D else (False if v.op in ("slice", "rev", "skip", "take", "stepby") else None), "whole-slice", w, f"iterates over {pp(v, 3)}")
                    else:
                        n = T("arg", 2, fn.locals[2][1])
                        if v.op in ("chunks", "chunksx", "rchunks", "windows"):
                            rep.verdict(v.op == "chunks" and v.args[0] is D and q.norm(v.args[1]) is n, "chunks", w, f"chunks are {pp(v, 4)}")
                        else:
                            rep.unk("chunks", w, pp(v, 3))
    A = {f.id: f for f in par.fns.values()}
    B = {f.id: f for f in seq.fns.values()}
    differ = [i for i in sorted(A) if i in B and "{closure" not in i and not i.startswith("jf_witness") and (repr(A[i].blocks) != repr(B[i].blocks) or closures_differ(A, B, i))]
    for i in differ:
        x, a1 = summary(rep, par, A[i])
        y, a2 = summary(rep, seq, B[i])
        same = sorted(x) == sorted(y)
        if not same:
            # a helper may be called in one build only: compare with everything inlined
            x, a1 = summary(rep, par, A[i], True)
            y, a2 = summary(rep, seq, B[i], True)
            same = sorted(x) == sorted(y)
        rep.verdict(None if not same and (a1.overflow or a2.overflow) else same, "agree", A[i].path, "parallel and sequential builds compute different values: " + first_diff(sorted(x), sorted(y)))


def closures_differ(A, B, i):
    ca = {k: repr(f.blocks) for k, f in A.items() if k.startswith(i + "::{closure")}
    cb = {k: repr(f.blocks) for k, f in B.items() if k.startswith(i + "::{closure")}
    return ca != cb


def first_diff(x, y):
    a, b = "\n".join(x).split("\n"), "\n".join(y).split("\n")
    for l, m in zip(a, b):
        if l != m:
            k = next((j for j in range(min(len(l), len(m))) if l[j] != m[j]), 0)
            return f"...{l[max(0, k - 60):k + 100]} / ...{m[max(0, k - 60):k + 100]}"
    return f"{len(a)} / {len(b)} parts"


# ------------------------------------------------------------------------ P01
@check("P01", ["jf_prf"], """Value-flow summary of the provided random-seed evaluation: the returned seed and the seed given to evaluate are the same freshly drawn value, drawn from the caller's
generator; the caller's input is evaluated; an evaluation error is returned.""", floor=1)
def p01(rep, prog):
    fn = rep.anchor(prog, "jf_prf", "evaluate_with_rand_seed")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn)
    w = fn.path
    R, I = T("arg", 1, fn.locals[1][1]), T("arg", 2, fn.locals[2][1])
    oks = [n for n in an.exits() if not (n.exit.op == "agg" and n.exit.args[1] == "Err")]
    if not oks:
        rep.unk("seed", w)
    for e in oks:
        for _, v in case_list(q, e):
            v = payload(q.norm(v))
            ev = find(q, v, lambda t: nm(t) == "evaluate")
            if not ev:
                rep.fail("evaluate", w, "the output is not an evaluation of the function")
                continue
            if v.op == "agg" and len(v.args) == 5 and len(ev) > 1:
                s1 = q.norm(v.args[3])
                other = [x for x in ev if q.norm(x.args[2]) is not s1]
                if s1.op != "phi" and other:
                    rep.fail("same-seed", w, f"returned seed {pp(s1, 3)}, but the output may be the evaluation under {pp(q.norm(other[0].args[2]), 3)}")
                    continue
            if len(ev) != 1 or v.op != "agg" or len(v.args) != 5:
                rep.unk("evaluate", w, pp(v, 4))
                continue
            s1, s2 = q.norm(v.args[3]), q.norm(ev[0].args[2])
            rep.verdict(s1 is s2, "same-seed", w, f"returned seed {pp(s1, 3)}, evaluated seed {pp(s2, 3)}")
            rep.verdict(q.norm(ev[0].args[3]) is I, "input", w, f"evaluates {pp(ev[0].args[3], 3)}")
            rnd = find(q, s2, lambda t: nm(t) in ("rand", "gen", "sample", "fill_bytes"))
            rep.verdict(True if any(an.depends(x, lambda t: t is R or (t.op == "mref")) for x in rnd) else False, "fresh-seed", w, f"the seed {pp(s2, 3)} is not drawn from the caller's generator")
            gs = [q.accept(g) for g in an.guards([e]) if g.must]
            rep.verdict(True if any(p[0] == "is" and p[1] is ev[0] and p[2] == frozenset({"Ok"}) for p in gs) else None, "error", w, "")
