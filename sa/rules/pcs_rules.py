"""jf-pcs: KZG commitments, openings, verification, batch transcript, dense polynomials and Toeplitz products."""
from common import *

C = "jf_pcs"
NV = ("num_vars", "degree", "coeffs", "to_evaluations", "log2")


def uni(rep, prog, name, **kw):
    fn = rep.anchor(prog, C, name, "UnivariateKzgPCS", **kw)
    return (None, None, None) if fn is None else (fn,) + rep.analyse(prog, fn)


@check("K01", [C], """Value-flow summaries of commit, batch commit and trim of both schemes. Decided: oversized polynomials and degrees beyond the reference string are refused on
every path (grid over the compared integers); the multi-scalar multiplication pairs every coefficient with the power of the same index (same offset on both operands, only zero
coefficients skipped) and uses the SRS level of the polynomial's number of variables; every element of a batch is committed; trimming copies the prefix/suffix of the right vectors.""",
       floor=6)
def k01(rep, prog):
    R = range(0, 6)
    fn, an, q = uni(rep, prog, "commit")
    if fn is not None:
        w = fn.path
        pw, poly = f(arg(fn, 1), "powers_of_g"), arg(fn, 2)
        oks = ok_exits(an)
        refuses(rep, an, q, "degree", w, oks, lambda a: "degree" if nm(a) == "degree" and a.args[2] is poly else "powers" if a is q.nlen(pw) else None,
                {"degree": R, "powers": R}, lambda e: e["degree"] >= e["powers"] and e["powers"] > 0, "a polynomial with more coefficients than the SRS has powers is committed",
                lambda e: e["degree"] < e["powers"])
        for _, v in returned(q, oks):
            msm(rep, an, q, f(v, "0"), pw, coeffs_of(q, poly), "commit", w, NV)
    fn = rep.anchor(prog, C, "batch_commit", "UnivariateKzgPCS")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "commit")
        w = fn.path
        for _, v in returned(q, ok_exits(an)):
            ew = elementwise(q, v)
            if ew is None:
                rep.verdict(False if v.op in ("take", "skip", "slice", "rev") else None, "batch-all", w, pp(v, 4))
                continue
            rep.verdict(covers(q, KForm(q), ew[0], [arg(fn, 2)]), "batch-all", w, f"commits to {pp(ew[0], 4)}")
            cs = find(q, ew[1], lambda t: nm(t) == "commit")
            rep.verdict(True if len(cs) == 1 and q.norm(cs[0].args[3]).op in ("elem", "index") and q.norm(cs[0].args[3]).args[0] is arg(fn, 2) and cs[0].args[2] is arg(fn, 1) else None,
                        "batch-each", w, pp(ew[1], 4))
    for name in ("commit", "batch_commit"):
        fn = rep.anchor(prog, C, name, "MultilinearKzgPCS")
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "merge_polynomials")
        w = fn.path
        pp0 = f(arg(fn, 1), "0")
        src = arg(fn, 2)
        oks = ok_exits(an)

        def isnv(a):
            if a.op == "field" and a.args[1] == "num_vars":
                return base(a.args[0])
            return nm(a) == "num_vars" and base(a.args[2])

        def base(t):
            if name == "commit":
                return t is src
            return bool(find(q, t, lambda x: nm(x) == "merge_polynomials" and q.norm(x.args[2]) is src))
        cls = lambda a: "nv" if isnv(a) else "max" if a is q.norm(f(pp0, "num_vars")) else None
        refuses(rep, an, q, "num-vars", w, oks, cls, {"nv": R, "max": R}, lambda e: e["nv"] > e["max"], "a polynomial with more variables than the parameters support is committed",
                lambda e: e["nv"] <= e["max"])
        for _, v in returned(q, oks):
            t = peel(q, f(v, "0"), "into_affine")
            if nm(t) == "commit":
                continue
            if nm(t) not in ("msm", "msm_bigint", "msm_unchecked") or len(t.args) != 4:
                rep.unk("level", w, pp(t, 4))
                continue
            b, s = q.norm(t.args[2]), q.norm(t.args[3])
            if b.op == "field" and b.args[1] == "evals" and b.args[0].op == "index" and b.args[0].args[0] is q.norm(f(pp0, "powers_of_g")):
                lv = b.args[0].args[1]
                r, why = grid(q, lv, lambda e: e["max"] - e["nv"], cls, {"nv": R, "max": R}, lambda e: e["nv"] <= e["max"])
                rep.verdict(r, "level", w, "SRS level: " + why)
            else:
                rep.unk("level", w, pp(b, 5))
            if s.op == "map":
                body = peel(q, s.args[1], "into_bigint")
                dom = s.args[0]
                ok = body.op == "elem" and nm(body.args[0]) == "to_evaluations" and base(body.args[0].args[2])
                rep.verdict(ok or (False if dom.op in ("take", "skip", "slice", "rev", "filter", "takewhile", "skipwhile") or body.op == "bin" else None), "evaluations", w, f"scalars are {pp(s, 5)}")
            else:
                rep.unk("evaluations", w, pp(s, 5))
    # trim
    fn = rep.anchor(prog, C, "trim_with_verifier_degree", "UnivariateUniversalParams")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        me, pd, vd = arg(fn, 1), arg(fn, 2), arg(fn, 3)
        G_, H_ = f(me, "powers_of_g"), f(me, "powers_of_h")
        names = {q.nlen(G_): "g", q.nlen(H_): "h", pd: "pd", vd: "vd"}
        refuses(rep, an, q, "trim-guard", w, ok_exits(an), lambda a: names.get(a), {"g": range(0, 5), "h": range(0, 5), "pd": range(0, 5), "vd": range(0, 5)},
                lambda e: e["pd"] >= e["g"] or e["vd"] >= e["h"] or e["vd"] >= e["g"] or e["vd"] == 0, "a degree outside the reference string is accepted",
                lambda e: e["pd"] < e["g"] and 0 < e["vd"] < e["h"] and e["vd"] < e["g"])
        for _, v in returned(q, ok_exits(an)):
            pre = lambda x, d: T("slice", x, const(0), T("bin", "Add", d, const(1)))
            pk, vk = f(v, "0"), f(v, "1")
            for nme, got, want in (("prover-g", f(pk, "powers_of_g"), pre(G_, pd)), ("verifier-h", f(vk, "powers_of_h"), pre(H_, vd)), ("verifier-g", f(vk, "powers_of_g"), pre(G_, vd)),
                                   ("g", f(vk, "g"), index(G_, const(0))), ("h", f(vk, "h"), f(me, "h")), ("beta-h", f(vk, "beta_h"), f(me, "beta_h"))):
                rep.verdict(same(q, got, want), "trim-" + nme, w, f"is {pp(q.norm(got), 5)}, expected {pp(want, 5)}")
    fn = rep.anchor(prog, C, "trim", "MultilinearUniversalParams")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        me, nv = arg(fn, 1), arg(fn, 2)
        P0 = f(me, "prover_param")
        names = {nv: "nv", q.norm(f(P0, "num_vars")): "max"}
        refuses(rep, an, q, "trim-guard", w, ok_exits(an), lambda a: names.get(a), {"nv": R, "max": R}, lambda e: e["nv"] > e["max"], "more variables than the reference string has are accepted",
                lambda e: e["nv"] <= e["max"])
        red = T("bin", "Sub", f(P0, "num_vars"), nv)
        for _, v in returned(q, ok_exits(an)):
            pk, vk = f(v, "0"), f(v, "1")
            for nme, got, want in (("powers", f(pk, "powers_of_g"), T("slice", f(P0, "powers_of_g"), red, T("end"))), ("num-vars", f(pk, "num_vars"), nv), ("pg", f(pk, "g"), f(P0, "g")),
                                   ("ph", f(pk, "h"), f(P0, "h")), ("mask", f(vk, "h_mask"), T("slice", f(me, "h_mask"), red, T("end"))), ("vnum-vars", f(vk, "num_vars"), nv),
                                   ("vg", f(vk, "g"), f(P0, "g")), ("vh", f(vk, "h"), f(P0, "h"))):
                rep.verdict(same(q, got, want), "trim-" + nme, w, f"is {pp(q.norm(got), 5)}, expected {pp(want, 5)}")



def linear_poly(q, t):
    """the root r when t is the polynomial X - r given by its coefficients"""
    t = q.norm(t)
    while t.op in ("conv",) or nm(t) in ("clone", "from", "into"):
        t = t.args[0] if t.op == "conv" else t.args[2]
    if nm(t) not in ("from_coefficients_vec", "from_coefficients_slice"):
        return None
    ps = q.seq(t.args[2])
    if len(ps) != 2 or any(p[0] != "one" for p in ps):
        return None
    a, b = ring(q, ps[0][1]), ring(q, ps[1][1])
    if b != {(): 1} or len(a) != 1:
        return "bad"
    (m, c), = a.items()
    return m[0] if c == -1 and len(m) == 1 else "bad"


def divisor_points(rep, q, d, pts, facet, w):
    """the polynomial vanishes at exactly the points of a list: product of X - p over all positions"""
    d = q.norm(d)
    r = recur(q, d)
    if r is None:
        rep.unk(facet, w, pp(d, 4))
        return
    init, step, h = r
    dom = q.loop_domain(h)
    i0 = linear_poly(q, init)
    step = q.norm(step)
    fac = [x for x in (step.args[1:] if step.op == "bin" and step.args[0] == "Mul" else []) if x is not d]
    if len(fac) != 1 or dom is None:
        rep.unk(facet, w, pp(step, 4))
        return
    root = linear_poly(q, fac[0])
    first = i0 is not None and i0 != "bad" and same(q, i0, index(pts, const(0))) is True and dom.op in ("skip", "slice") and dom.args[0] is pts and dom.args[1] is const(1)
    allp = dom is pts
    if root is None:
        rep.unk(facet, w, pp(fac[0], 4))
        return
    ok = root != "bad" and root.op in ("elem", "index") and root.args[0] in (pts, dom)
    rep.verdict(ok, facet + "-root", w, f"factor is {pp(fac[0], 5)}")
    one = nm(init) == "one" or nm(init) == "from_coefficients_vec" and [ring(q, x[1]) for x in q.seq(init.args[2])] == [{(): 1}]
    rep.verdict(True if first or allp and one else False if i0 is not None and dom.op in ("skip", "slice", "take") or allp and i0 not in (None, "bad") else None, facet + "-all", w,
                f"product starts with {pp(init, 4)} and runs over {pp(dom, 4)}")


def quotient(rep, q, t, poly, facet, w):
    """dividend check; returns the divisor"""
    t = q.norm(t)
    if not (t.op == "bin" and t.args[0] == "Div"):
        rep.unk(facet, w, pp(t, 4))
        return None
    rep.verdict(same(q, t.args[1], poly), facet + "-dividend", w, f"divides {pp(t.args[1], 4)}")
    return t.args[2]


def witness_of(q, v):
    """polynomial whose coefficients are the scalars of an MSM"""
    t = peel(q, v, "into_affine", "into_group")
    if nm(t) not in ("msm", "msm_bigint", "msm_unchecked") or len(t.args) != 4:
        return None
    c = [x for x in q.an.subterms(t.args[3], False) if nm(x) == "coeffs" or x.op == "field" and x.args[1] == "coeffs"]
    ps = {(x.args[2] if x.op == "call" else x.args[0]) for x in c}
    return ps.pop() if len(ps) == 1 else None


@check("K02", [C], """Value-flow summaries of the opening functions. Decided: the univariate witness is the quotient of the given polynomial by X - point (by the product over all
points), committed with matching powers, and the reported value is the polynomial's evaluation at the same point; the batch opening rejects unequal lengths and opens the polynomial and
point of the same position, in order; the multilinear opening rejects wrong dimensions, folds one variable per round with quotient f(1)-f(0) and remainder f(0)+q*p, and uses
the SRS level of the round.""", floor=4)
def k02(rep, prog):
    R = range(0, 6)
    fn, an, q = uni(rep, prog, "open")
    if fn is not None:
        w = fn.path
        pw, poly, pt = f(arg(fn, 1), "powers_of_g"), arg(fn, 2), arg(fn, 3)
        for _, v in returned(q, ok_exits(an)):
            pr, ev = f(v, "0"), q.norm(f(v, "1"))
            wit = witness_of(q, f(pr, "proof"))
            if wit is None:
                rep.unk("witness", w, pp(pr, 5))
            else:
                d = quotient(rep, q, wit, poly, "witness", w)
                if d is not None:
                    r = linear_poly(q, d)
                    rep.verdict(None if r is None else r is pt, "witness-point", w, f"divisor is {pp(d, 5)}, expected X - point")
                msm(rep, an, q, f(pr, "proof"), pw, coeffs_of(q, wit), "witness-msm", w, NV + ("from_coefficients_vec", "one"))
            ok = nm(ev) == "evaluate" and ev.args[2] is poly and ev.args[3] is pt
            rep.verdict(ok or (False if nm(ev) in ("evaluate", "zero", "one") else None), "value", w, f"reported value is {pp(ev, 4)}")
    fn, an, q = uni(rep, prog, "multi_point_open")
    if fn is not None:
        w = fn.path
        pw, poly, pts = f(arg(fn, 1), "powers_of_g"), arg(fn, 2), arg(fn, 3)
        refuses(rep, an, q, "no-points", w, ok_exits(an), lambda a: "n" if a is q.nlen(pts) else None, {"n": range(0, 4)}, lambda e: e["n"] == 0, "an empty list of points is accepted",
                lambda e: e["n"] > 0)
        for _, v in returned(q, ok_exits(an)):
            pr, ev = f(v, "0"), q.norm(f(v, "1"))
            wit = witness_of(q, f(pr, "proof"))
            if wit is None:
                rep.unk("multi-witness", w, pp(pr, 5))
            else:
                d = quotient(rep, q, wit, poly, "multi-witness", w)
                if d is not None:
                    divisor_points(rep, q, d, pts, "multi-divisor", w)
                msm(rep, an, q, f(pr, "proof"), pw, coeffs_of(q, wit), "multi-msm", w, NV)
            ew = elementwise(q, ev)
            if ew is None:
                rep.unk("multi-values", w, pp(ev, 4))
            else:
                rep.verdict(covers(q, KForm(q), ew[0], [pts]), "multi-all", w, f"evaluates at {pp(ew[0], 4)}")
                b = KForm(q)(ew[1])
                ok = nm(b) == "evaluate" and b.args[2] is poly and b.args[3].op == "index" and b.args[3].args[0] is pts and b.args[3].args[1].op == "K"
                rep.verdict(ok or (False if nm(b) == "evaluate" else None), "multi-values", w, f"value is {pp(b, 5)}")
    fn = rep.anchor(prog, C, "batch_open", "UnivariateKzgPCS")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "open")
        w = fn.path
        polys, pts = arg(fn, 3), arg(fn, 4)
        ln = {q.nlen(polys): "polys", q.nlen(pts): "points"}
        refuses(rep, an, q, "batch-lengths", w, ok_exits(an), lambda a: ln.get(a), {"polys": R, "points": R}, lambda e: e["polys"] != e["points"], "different numbers of polynomials and points are accepted",
                lambda e: e["polys"] == e["points"])
        kf = KForm(q)
        for _, v in returned(q, ok_exits(an)):
            for i, nme in ((0, "proofs"), (1, "values")):
                ew = elementwise(q, q.norm(f(v, str(i))))
                if ew is None:
                    rep.unk("batch-" + nme, w, pp(f(v, str(i)), 4))
                    continue
                rep.verdict(covers(q, kf, ew[0], [polys, pts]), "batch-all-" + nme, w, f"opens {pp(ew[0], 4)}")
                b = kf(ew[1])
                cs = [x for x in an.subterms(b, False) if nm(x) == "open"]
                if len(cs) != 1:
                    rep.unk("batch-" + nme, w, pp(b, 4))
                    continue
                c = cs[0]
                ok = c.args[3].op == "index" and c.args[3].args[0] is polys and c.args[4].op == "index" and c.args[4].args[0] is pts and c.args[3].args[1] is c.args[4].args[1]
                rep.verdict(ok or (False if pure(c.args[3]) and pure(c.args[4]) else None), "batch-" + nme, w, f"position k is {pp(c, 5)}")
                rep.verdict(b is not c and b.op == "field" and b.args[1] == str(i), "batch-part-" + nme, w, f"{nme} list holds {pp(b, 3)}")
    fn = rep.anchor(prog, C, "open_internal")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        prm, poly, pt = arg(fn, 1), arg(fn, 2), arg(fn, 3)
        nvt = lambda a: nm(a) == "num_vars" and a.args[2] is poly or a.op == "field" and a.args[1] == "num_vars" and a.args[0] is poly
        cls = lambda a: "nv" if nvt(a) else "max" if a is q.norm(f(prm, "num_vars")) else "pt" if a is q.nlen(pt) else None
        refuses(rep, an, q, "ml-dims", w, ok_exits(an), cls, {"nv": R, "max": R, "pt": R}, lambda e: e["nv"] > e["max"] or e["nv"] != e["pt"],
                "a polynomial or point of the wrong dimension is accepted", lambda e: e["nv"] <= e["max"] and e["nv"] == e["pt"])
        kf = KForm(q)
        for _, v in returned(q, ok_exits(an)):
            ev = q.norm(f(v, "1"))
            rep.verdict(True if nm(ev) == "evaluate" and ev.args[2] is poly and ev.args[3] is pt else False if nm(ev) in ("evaluate", "zero") else None, "ml-value", w, f"reported value is {pp(ev, 4)}")
            ew = elementwise(q, q.norm(f(v, "0", "proofs")))
            if ew is None:
                rep.unk("ml-proofs", w, pp(v, 4))
                continue
            dom, body = ew
            t = peel(q, body, "into_affine")
            if nm(t) not in ("msm", "msm_bigint", "msm_unchecked"):
                rep.unk("ml-proofs", w, pp(t, 4))
                continue
            b = kf(t.args[2])
            lv = b.args[0].args[1] if b.op == "field" and b.args[1] == "evals" and b.args[0].op == "index" and b.args[0].args[0] is q.norm(f(prm, "powers_of_g")) else None
            if lv is None:
                rep.unk("ml-level", w, pp(b, 5))
            else:
                d = kf.isum(T("bin", "Sub", lv, T("bin", "Add", f(prm, "num_vars"), const(1))))
                ks = [x for x in an.subterms(lv, False) if x.op == "K"]
                nv = [x for x in an.subterms(lv, False) if nvt(x) or x is q.nlen(pt)]
                want = kf.isum(T("bin", "Sub", ks[0], nv[0])) if len(ks) == 1 and nv else None
                rep.verdict(want is d if want is not None else None, "ml-level", w, f"level of round k is {pp(lv, 6)}, expected num_vars - nv + 1 + k")
            # folding
            s = q.norm(t.args[3])
            s = s.args[0] if s.op == "map" else s
            h = recur_header(q, s)
            if h is None:
                rep.unk("ml-fold", w, pp(s, 4))
                continue
            fold(rep, an, q, kf, w, s, h, pt)


def recur_header(q, t):
    lp = q.loop_phi(t) if t.op == "phi" else None
    return lp[0] if lp else None


def fold(rep, an, q, kf, w, qv, h, pt):
    """one round: quotient q[b] = f[2b+1] - f[2b], next f is r[b] = f[2b] + q[b] * p"""
    eff = effects(q, qv, array_root(q, qv))
    if not eff or len(eff) != 1 or eff[0][0] != "loop" or len(eff[0][3]) != 1 or eff[0][3][0][0] != "store":
        rep.unk("ml-fold", w, "quotient")
        return
    st = eff[0][3][0]
    b = kf.i(st[1])
    val = kf.ring(st[2])
    fv = None
    co = {}
    for m, c in val.items():
        if len(m) != 1 or m[0].op != "index" or abs(c) != 1:
            rep.unk("ml-fold", w, pp(st[2], 5))
            return
        fv = m[0].args[0] if fv is None else fv
        co[c] = (m[0].args[0], m[0].args[1])
    two = lambda k: kf.isum(T("bin", "Add", T("bin", "Mul", b, const(2)), const(k)))
    ok = len(val) == 2 and set(co) == {1, -1} and co[1] == (fv, two(1)) and co[-1] == (fv, two(0))
    rep.verdict(ok, "ml-quotient", w, f"quotient is {pp(st[2], 6)}, expected f[2b+1] - f[2b]")
    # the next f
    outer = recur(q, fv)
    if outer is None:
        rep.unk("ml-remainder", w, pp(fv, 3))
        return
    eff = effects(q, outer[1], array_root(q, outer[1]))
    if not eff or len(eff) != 1 or eff[0][0] != "loop" or len(eff[0][3]) != 1 or eff[0][3][0][0] != "store":
        rep.unk("ml-remainder", w, pp(outer[1], 4))
        return
    st = eff[0][3][0]
    b2 = kf.i(st[1])
    r = kf.ring(st[2])
    two = lambda k: kf.isum(T("bin", "Add", T("bin", "Mul", b2, const(2)), const(k)))
    sc = [x for m in r for x in m if x.op == "index" and x.args[0] is pt]
    if not sc:
        rep.verdict(False if all(x.op == "index" for m in r for x in m) else None, "ml-remainder", w, f"remainder {pp(st[2], 6)} does not use the point")
        return
    p, f0, f1 = sc[0], T("index", fv, two(0)), T("index", fv, two(1))
    key = lambda *x: tuple(sorted(x, key=lambda z: z.id))
    want = {key(f0): 1, key(f1, p): 1, key(f0, p): -1}
    got = {}
    for m, c in r.items():
        # the stored quotient may be read back
        out = [()]
        got_m = [((), 1)]
        for x in m:
            if x.op == "index" and x.args[0] is not fv and x.args[0] is not pt and x.args[1] is b2:
                got_m = [(a + (y,), s * k) for a, s in got_m for y, k in ((f1, 1), (f0, -1))]
            else:
                got_m = [(a + (x,), s) for a, s in got_m]
        for a, s in got_m:
            got[key(*a)] = got.get(key(*a), 0) + s * c
    got = {k: v for k, v in got.items() if v}
    rep.verdict(got == want, "ml-remainder", w, f"remainder is {pp(st[2], 6)}, expected f[2b] + q[b] * point")
    rep.verdict(p.args[1].op == "K", "ml-point-order", w, f"round k uses coordinate {pp(p.args[1], 4)}")


def mono(*xs):
    return tuple(sorted(xs, key=lambda z: z.id))


def acc_increment(q, G, kf, ph):
    """loop-carried sum: (initial polynomial, polynomial added per iteration, header)"""
    r = recur(q, ph)
    if r is None:
        return None
    init, step, h = r
    d = padd(G(kf(step)), {(ph,): 1}, -1)
    if any(ph in m for m in d):
        return None
    return G(kf(init)), d, h


@check("K03", [C], """The verification equations, written as bilinear forms over the group elements and compared with the specified form up to sign; operands that do not correspond,
unequal list lengths and oversized points are violations. Decided: single, batched and multi-point univariate verification and multilinear verification; in the batch every position
contributes its own equation scaled by one randomiser that is drawn anew for each position; length mismatches between commitments, points, values and proofs are refused on every path.""",
       floor=4)
def k03(rep, prog):
    R = range(0, 4)
    fn, an, q = uni(rep, prog, "verify")
    if fn is not None:
        w = fn.path
        vp, cm, z, v, pf = (arg(fn, i) for i in range(1, 6))
        G, kf = Group(q), KForm(q)
        g, h, bh, c, pi = f(vp, "g"), f(vp, "h"), f(vp, "beta_h"), f(cm, "0"), f(pf, "proof")
        want = {mono(g, v, h): 1, mono(pi, z, h): -1, mono(c, h): -1, mono(pi, bh): 1}
        for _, r in returned(q, ok_exits(an)):
            decide(rep, q, G, r, want, "equation", w)
    fn, an, q = uni(rep, prog, "batch_verify")
    if fn is not None:
        w = fn.path
        vp, cms, zs, vs, pfs = (arg(fn, i) for i in range(1, 6))
        G, kf = Group(q), KForm(q)
        ln = {q.nlen(x): n for x, n in ((cms, "commitments"), (zs, "points"), (vs, "values"), (pfs, "proofs"))}
        refuses(rep, an, q, "batch-lengths", w, ok_exits(an), lambda a: ln.get(a), {n: R for n in ln.values()}, lambda e: len(set(e.values())) > 1,
                "lists of different lengths are accepted", lambda e: len(set(e.values())) == 1)
        for _, r in returned(q, ok_exits(an)):
            P_ = pairing_poly(q, G, r)
            if not isinstance(P_, dict):
                rep.verdict(False if isinstance(P_, str) else None, "batch-equation", w, P_ or pp(r, 4))
                continue
            accs = {x for m in P_ for x in m if x.op == "phi"}
            inc = {a: acc_increment(q, G, kf, a) for a in accs}
            if not accs or any(i is None for i in inc.values()) or len({i[2] for i in inc.values()}) != 1:
                rep.unk("batch-equation", w, poly_text(P_))
                continue
            hd = next(iter(inc.values()))[2]
            dom = q.loop_domain(hd)
            rep.verdict(covers(q, kf, dom, [cms, zs, vs, pfs]), "batch-all", w, f"positions checked: {pp(dom, 5)}")

            def subst(which):
                tot = {}
                for m, cf in P_.items():
                    t = {(): cf}
                    for x in m:
                        t = pmul(t, inc[x][which] if x in inc else {(x,): 1})
                    tot = padd(tot, t, 1)
                return tot
            rep.verdict(subst(0) == {}, "batch-start", w, f"accumulators start with {poly_text(subst(0))}")
            per = subst(1)
            rnd = [x for x in set(itertools.chain(*per)) if x.op == "phi"] if per else []
            if not rnd:
                rs = [x for x in set(itertools.chain(*per)) if x.op == "call" and nm(x) in ("rand", "gen", "sample", "from")]
                rnd = rs
            if len(rnd) != 1:
                rep.verdict(False if not rnd else None, "batch-randomiser", w, f"one common randomiser expected per position, found {len(rnd)}")
                continue
            rr = rnd[0]
            ks = {x for m in per for t in m for x in an.subterms(t, False) if x.op == "K"}
            k = next(iter(ks)) if len(ks) == 1 else None
            if k is None:
                rep.unk("batch-equation", w, poly_text(per))
                continue
            at = lambda x: T("index", x, k)
            g, h, bh, c, pi = f(vp, "g"), f(vp, "h"), f(vp, "beta_h"), f(at(cms), "0"), f(at(pfs), "proof")
            want = {mono(rr, g, at(vs), h): 1, mono(rr, pi, at(zs), h): -1, mono(rr, c, h): -1, mono(rr, pi, bh): 1}
            known = set(itertools.chain(*want))
            rep.verdict(upto_sign(per, want) or (False if set(itertools.chain(*per)) <= known | {const(0)} else None), "batch-equation", w, f"position k contributes {poly_text(per)}")
            if rr.op == "phi":
                r2 = recur(q, rr)
                ok = None
                if r2 is not None:
                    ini, stp = ring(q, r2[0]), r2[1]
                    draws = find(q, stp, lambda t: nm(t) in ("rand", "gen", "next_u64", "fill_bytes", "sample"))
                    ok = (ini != {} and bool(draws)) if not find(q, stp, lambda t: t is rr) or draws else False
                    if not draws:
                        ok = False
                rep.verdict(ok, "batch-randomiser", w, f"randomiser is updated to {pp(r2[1], 4) if r2 else '?'}")
            else:
                rep.ok("batch-randomiser", w)
    fn, an, q = uni(rep, prog, "multi_point_verify")
    if fn is not None:
        w = fn.path
        vp, cm, zs, vs, pf = (arg(fn, i) for i in range(1, 6))
        G = Group(q)
        ln = {q.nlen(zs): "points", q.nlen(vs): "values", q.nlen(f(vp, "powers_of_h")): "powers"}
        refuses(rep, an, q, "multi-lengths", w, ok_exits(an), lambda a: ln.get(a), {n: range(0, 5) for n in ln.values()},
                lambda e: e["points"] == 0 or e["points"] != e["values"] or e["powers"] <= e["points"], "unsuitable numbers of points, values or powers are accepted",
                lambda e: 0 < e["points"] == e["values"] < e["powers"])
        for _, r in returned(q, ok_exits(an)):
            P_ = pairing_poly(q, G, r)
            if not isinstance(P_, dict):
                rep.verdict(False if isinstance(P_, str) else None, "multi-equation", w, P_ or pp(r, 4))
                continue
            msms = {x for m in P_ for x in m if nm(x) in ("msm", "msm_bigint", "msm_unchecked")}
            ev = [x for x in msms if same(q, strip_slice(x.args[2]), f(vp, "powers_of_g")) is True]
            zn = [x for x in msms if same(q, strip_slice(x.args[2]), f(vp, "powers_of_h")) is True]
            if len(ev) != 1 or len(zn) != 1 or len(msms) != 2:
                rep.verdict(False if len(msms) == 2 else None, "multi-bases", w, "the interpolation must be committed over the powers in G1 and the vanishing polynomial over those in G2")
                continue
            h, c, pi = f(vp, "h"), f(cm, "0"), f(pf, "proof")
            want = {mono(ev[0], h): 1, mono(c, h): -1, mono(pi, zn[0]): 1}
            known = set(itertools.chain(*want))
            rep.verdict(upto_sign(P_, want) or (False if set(itertools.chain(*P_)) <= known | {f(vp, "beta_h"), f(vp, "g")} else None), "multi-equation", w, f"checked form is {poly_text(P_)}")
            zp, ep = witness_of(q, zn[0]), witness_of(q, ev[0])
            if zp is not None:
                msm(rep, an, q, zn[0], f(vp, "powers_of_h"), coeffs_of(q, zp), "multi-vanish-msm", w, NV)
                divisor_points(rep, q, zp, zs, "multi-vanish", w)
            if ep is not None:
                msm(rep, an, q, ev[0], f(vp, "powers_of_g"), coeffs_of(q, ep), "multi-interp-msm", w, NV)
                r2 = recur(q, ep)
                dom = q.loop_domain(r2[2]) if r2 else None
                rep.verdict(covers(q, KForm(q), dom, [zs, vs]) if dom is not None else None, "multi-interp-all", w, f"interpolates over {pp(dom, 4) if dom is not None else '?'}")
                if r2:
                    interp(rep, an, q, ep, r2, zs, vs, w)
    fn = rep.anchor(prog, C, "verify_internal")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        vp, cm, z, v, pf = (arg(fn, i) for i in range(1, 6))
        G = Group(q)
        pis = f(pf, "proofs")
        ln = {q.nlen(z): "point", q.nlen(pis): "proof", q.norm(f(vp, "num_vars")): "max"}
        refuses(rep, an, q, "ml-lengths", w, ok_exits(an), lambda a: ln.get(a), {n: R for n in ln.values()}, lambda e: e["point"] > e["max"] or e["proof"] != e["point"],
                "a point or proof of the wrong length is accepted", lambda e: e["proof"] == e["point"] <= e["max"])
        kf = KForm(q)
        for _, r in returned(q, ok_exits(an)):
            P_ = pairing_poly(q, G, r)
            if not isinstance(P_, dict):
                rep.verdict(False if isinstance(P_, str) else None, "ml-equation", w, P_ or pp(r, 4))
                continue
            h, g, c = f(vp, "h"), f(vp, "g"), f(cm, "0")
            off = kf.isum(T("bin", "Add", T("bin", "Sub", f(vp, "num_vars"), q.nlen(z)), PAIR))
            at = lambda x, i=PAIR: T("index", x, i)
            want = {mono(at(pis), at(f(vp, "h_mask"), off)): 1, mono(at(pis), h, at(z)): -1, mono(g, v, h): 1, mono(c, h): -1}
            atoms = set(itertools.chain(*P_))
            rep.verdict(upto_sign(P_, want) or (False if all(pure(a) for a in atoms) else None), "ml-equation", w, f"checked form is {poly_text(P_)}")


def strip_slice(t):
    return t.args[0] if t.op == "slice" else t


def decide(rep, q, G, r, want, facet, w):
    P_ = pairing_poly(q, G, r)
    if not isinstance(P_, dict):
        if r.op == "const":
            return rep.verdict(False if r.args[0] else True, facet, w, "accepts unconditionally")
        return rep.verdict(False if isinstance(P_, str) else None, facet, w, P_ or pp(r, 5))
    atoms = set(itertools.chain(*P_))
    rep.verdict(upto_sign(P_, want) or (False if all(pure(a) for a in atoms) else None), facet, w, f"checked form is {poly_text(P_)}, expected {poly_text(want)}")


def interp(rep, an, q, ep, r2, zs, vs, w):
    """every iteration adds the Lagrange polynomial of its own position scaled by its own value"""
    kf = KForm(q)
    dom = q.loop_domain(r2[2])
    stp = q.norm(r2[1])
    add = [x for x in stp.args[1:] if x is not ep] if stp.op == "bin" and stp.args[0] == "Add" else []
    lp = q.loop_phi(add[0]) if len(add) == 1 and add[0].op == "phi" else None
    if lp is None:
        rep.unk("multi-interp", w, pp(stp, 4))
        return
    h, init, _ = lp
    ini = q.norm(init[0])
    ps = q.seq(ini.args[2]) if nm(ini) == "from_coefficients_vec" else []
    pos = None
    if len(ps) == 1 and ps[0][0] == "one":
        v = kf(ps[0][1])
        ok = v.op == "index" and v.args[0] is vs and v.args[1].op == "K"
        pos = v.args[1] if ok else None
        rep.verdict(ok or None, "multi-interp-value", w, f"the interpolation starts from {pp(v, 4)}")
    else:
        rep.unk("multi-interp-value", w, pp(ini, 4))
    d2 = q.loop_domain(h)
    rep.verdict(covers(q, kf, d2, [zs, vs]) if d2 is not None else None, "multi-interp-points", w, f"product over {pp(d2, 4) if d2 is not None else '?'}")
    paths = q.loop_paths(h)
    if paths is None or pos is None:
        rep.unk("multi-interp-factor", w, "paths")
        return
    seen = set()
    for p in paths:
        out = q.on_path(p, h, add[0])
        if any(c.op == "disc" and find(q, c, lambda t: nm(t) == "inverse") and lab != 1 for c, lab in q.conds_on(p, h)):
            continue
        eq = None
        for c, lab in q.conds_on(p, h):
            c = kf(c)
            if c.op == "bin" and c.args[0] in ("Eq", "Ne") and pos in c.args[1:]:
                eq = (c.args[0] == "Eq") == bool(lab)
        out = q.norm(out)
        if out is add[0]:
            seen.add(("skip", eq))
            continue
        fac = [x for x in out.args[1:] if x is not add[0]] if out.op == "bin" and out.args[0] == "Mul" else []
        ps = q.seq(fac[0].args[2]) if len(fac) == 1 and nm(fac[0]) == "from_coefficients_vec" else []
        if len(ps) != 2:
            rep.unk("multi-interp-factor", w, pp(out, 4))
            return
        c0, c1 = kf.ring(ps[0][1]), kf.ring(ps[1][1])
        zi = [x for m in c1 for x in m]
        if len(c1) != 1 or len(zi) != 1 or list(c1.values()) != [1]:
            rep.unk("multi-interp-factor", w, pp(fac[0], 5))
            return
        inv = [x for x in an.subterms(zi[0], False) if nm(x) == "inverse"]
        den = kf.ring(inv[0].args[2]) if len(inv) == 1 else {}
        pts = [m[0] for m in den if len(m) == 1 and m[0].op == "index" and m[0].args[0] is zs]
        if len(pts) != 2:
            rep.unk("multi-interp-factor", w, pp(zi[0], 5))
            return
        own = [x for x in pts if x.args[1] is pos]
        oth = [x for x in pts if x.args[1] is not pos]
        ok = len(own) == 1 and len(oth) == 1 and den == {(own[0],): 1, (oth[0],): -1} and c0 == {mono(oth[0], zi[0]): -1}
        rep.verdict(ok, "multi-interp-factor", w, f"factor is {pp(fac[0], 6)}, expected (X - p_j)/(p_i - p_j)")
        seen.add(("factor", eq))
    rep.verdict(seen == {("skip", True), ("factor", False)}, "multi-interp-others", w, f"factors must be taken exactly for the other positions: {sorted(map(str, seen))}")


# ---------------------------------------------------------------- K04
BATCH = ("verify", "verify_internal", "build_l", "commit", "open", "open_internal", "merge_polynomials", "compute_w_circ_l", "get_uni_domain")


def challenge_of(q, t):
    """transcript state a field challenge was squeezed from: (state, squeeze call), following the reduction of the squeezed bytes"""
    t = q.norm(t)
    if nm(t) in ("from_le_bytes_mod_order", "from_be_bytes_mod_order"):
        t = q.norm(t.args[2])
        if t.op == "out" and nm(t.args[0]) == "challenge_bytes" and t.args[1] == 2:
            return t.args[0].args[2], t.args[0]
    return None


def absorbed(q, items, pts):
    """[(label, role term)]; points absorbed one by one or as a whole are ("pts", label)"""
    out = []
    for x in items:
        if x[0] == "loop":
            if len(x[2]) != 1 or x[2][0][0] != "append_message":
                return None
            s = serialised(q, x[2][0][1][2])
            kf = KForm(q)
            if s is None:
                return None
            b = kf(s)
            if b.op == "index" and b.args[0] is pts and b.args[1].op == "K":
                out.append((x[2][0][1][1], "points" if covers(q, kf, x[1], [pts]) else "some points"))
            else:
                out.append((x[2][0][1][1], b))
        elif x[0] == "append_message":
            s = serialised(q, x[1][2])
            s = q.norm(x[1][2]) if s is None else s
            out.append((x[1][1], "points" if s is pts else s))
        elif x[0] == "challenge_bytes":
            out.append((x[1][1], "challenge"))
        else:
            return None
    return out


@check("K04", [C], """Batch opening of multilinear polynomials. Decided: the sequence of messages absorbed before the evaluation challenge is squeezed, on the prover's and on the
verifier's side, read off the chain of transcript states: merged commitment, every point, commitment of the univariate polynomial, with equal labels and order on both sides; the
verifier's acceptance is guarded on every path by the length comparisons, one univariate verification for every domain element with the value and opening of the same position, one for
the challenge with the last ones, and the multilinear verification at the reversed evaluations of the interpolating polynomials at the challenge; the prover's output holds exactly the
corresponding openings; the transcript refuses challenges before anything was absorbed and absorbs every challenge it hands out.""", floor=2)
def k04(rep, prog):
    opq = lambda g: g.name in BATCH
    sides = {}
    # verifier
    fn = rep.anchor(prog, C, "batch_verify_internal")
    if fn is not None:
        w = fn.path
        an, q = rep.analyse(prog, fn, opaque=opq)
        uvp, mvp, cm, pts, vals, pf = (arg(fn, i) for i in range(1, 7))
        kf = KForm(q)
        facts, points = accept_facts(an, q)
        ln = {q.nlen(pts): "points", q.nlen(vals): "values", q.nlen(f(pf, "q_x_opens")): "openings"}
        refuses(rep, an, q, "lengths", w, ok_exits(an), lambda a: ln.get(a), {n: range(0, 4) for n in ln.values()},
                lambda e: e["points"] == 0 or e["values"] != e["points"] + 1 or e["openings"] != e["points"] + 1, "unsuitable numbers of points, values or openings are accepted",
                lambda e: e["points"] > 0 and e["values"] == e["openings"] == e["points"] + 1)
        expect(rep, facts, "point-lengths", w, lambda p: eqlen(q, kf, p, pts), "points of different lengths are not refused")
        n = q.nlen(pts)
        r = None

        def uniq(p, last):
            c = okof(p[1]) if p[0] == "true" else None
            if c is None or nm(c) != "verify":
                return False
            a = [kf(x) for x in c.args[2:]]
            if len(a) != 5 or a[0] is not uvp or a[1] is not f(pf, "q_x_commit"):
                return None if not pure(T("agg", "tuple", "", (), *a[:2])) else False
            pos, z, v, o = None, a[2], a[3], a[4]
            if last:
                ch = challenge_of(q, z)
                return ch is not None and same(q, v, index(vals, n)) is True and same(q, o, index(f(pf, "q_x_opens"), n)) is True
            if nm(z) not in ("element",):
                return None if not challenge_of(q, z) else False
            pos = z.args[3]
            return v is T("index", vals, pos) and o is T("index", f(pf, "q_x_opens"), pos) and pos.op == "K"
        ver = [fa for fa in facts if fa.must and uniq(fa.pred, False) is True]
        expect(rep, facts, "domain-openings", w, lambda p: uniq(p, False), "the openings at the domain points are not all verified with value and proof of their position")
        for fa in ver:
            h = loop_of(an, fa.node.id)
            dom = q.loop_domain(h) if h is not None else None
            rep.verdict(count_n(q, kf, dom, pts, vals, f(pf, "q_x_opens")), "domain-positions", w, f"verified positions: {show(dom) if dom is not None else 'none'}")
            d = okof(fa.pred[1]).args[4]
            rep.verdict(dom_of(q, d.args[2], n), "domain", w, f"domain of the openings: {pp(d.args[2], 4)}")
        expect(rep, facts, "challenge-opening", w, lambda p: uniq(p, True), "the opening at the challenge is not verified with the last value and proof")

        def final(p):
            c = okof(p[1]) if p[0] == "true" else None
            if c is None or nm(c) != "verify_internal":
                return False
            a = c.args[2:]
            if a[0] is not mvp or a[1] is not cm or a[4] is not f(pf, "proof"):
                return False if pure(T("agg", "tuple", "", (), a[0], a[1], a[4])) else None
            if same(q, a[3], index(vals, n)) is not True:
                return same(q, a[3], index(vals, n))
            return line_point(q, a[2], pts)
        expect(rep, facts, "final-opening", w, final, "the multilinear opening is not verified against the merged commitment at the point on the line, with the last value")
        cs = {challenge_of(q, okof(fa.pred[1]).args[4]) for fa in facts if fa.pred[0] == "true" and fa.pred[1].op == "field" and okof(fa.pred[1]) is not None and nm(okof(fa.pred[1])) == "verify"} - {None}
        sides["verifier"] = side(rep, q, w, cs, cm, pts, f(pf, "q_x_commit"))
    fn = rep.anchor(prog, C, "batch_open_internal")
    if fn is not None:
        w = fn.path
        an, q = rep.analyse(prog, fn, opaque=opq)
        upp, mpp, polys, cm, pts = (arg(fn, i) for i in range(1, 6))
        kf = KForm(q)
        ln = {q.nlen(pts): "points", q.nlen(polys): "polynomials"}
        refuses(rep, an, q, "open-lengths", w, ok_exits(an), lambda a: ln.get(a), {n: range(0, 4) for n in ln.values()},
                lambda e: e["points"] == 0 or e["points"] != e["polynomials"], "unsuitable numbers of points or polynomials are accepted", lambda e: 0 < e["points"] == e["polynomials"])
        for _, r in returned(q, ok_exits(an)):
            if r.op != "agg" or r.args[0] != "tuple" or r.args[3].op != "agg":
                rep.unk("open-result", w, pp(r, 4))
                continue
            pf, vals = r.args[3:]
            com = f(pf, "q_x_commit")
            cc = okof(q.norm(com))
            if cc is None or nm(cc) != "commit":
                rep.unk("open-commitment", w, pp(com, 4))
                continue
            qx = cc.args[3]
            rep.verdict(cc.args[2] is upp, "open-commitment", w, f"univariate polynomial committed with {pp(cc.args[2], 4)}")
            wc = okof(qx)
            ok = None
            if wc is not None and nm(wc) == "compute_w_circ_l":
                mg, bl = okof(wc.args[2]), okof(wc.args[3])
                if mg is not None and bl is not None and nm(mg) == "merge_polynomials" and nm(bl) == "build_l":
                    ok = mg.args[2] is polys and bl.args[3] is pts
            rep.verdict(ok, "open-polynomial", w, f"univariate polynomial: {pp(qx, 5)}")
            po, pv = q.seq(f(pf, "q_x_opens")), q.seq(vals)
            cs = set()
            for nme, ps, ix in (("open-proofs", po, "0"), ("open-values", pv, "1")):
                if len(ps) != 2 or ps[1][0] != "one" or ps[0][0] not in ("each", "loop"):
                    kinds = [p[0] for p in ps]
                    if kinds == ["all"] and q.norm(ps[0][1]).op == "vinsert":
                        rep.fail(nme, w, "the entry of the challenge is not the last")
                        continue
                    rep.verdict(False if kinds in ([], ["one"], ["each"], ["loop"]) else None, nme, w, f"one per point and one for the challenge are expected, found {kinds}")
                    continue
                body = ps[0][2] if ps[0][0] == "each" else ps[0][2][0][1] if len(ps[0][2]) == 1 and ps[0][2][0][0] == "one" else None
                if body is None:
                    rep.unk(nme, w, "")
                    continue
                d = q.norm(ps[0][1])
                rep.verdict(False if d.op == "rangei" and is_const(d.args[0], 0) and q.norm(d.args[1]) in (q.nlen(pts), q.nlen(polys)) else covers(q, kf, ps[0][1], [pts, polys]), nme + "-positions", w, f"positions: {pp(ps[0][1], 4)}")
                oks = []
                for b, last in ((body, False), (ps[1][1], True)):
                    b = q.norm(b)
                    c = okof(b.args[0]) if b.op == "field" and str(b.args[1]) == ix else None
                    if c is None or nm(c) != "open":
                        oks.append(False if b.op == "field" and okof(b.args[0]) is not None and nm(okof(b.args[0])) == "open" else None)
                        continue
                    z = kf(c.args[4])
                    ch = challenge_of(q, c.args[4])
                    if last:
                        cs.add(ch)
                    good = c.args[2] is upp and c.args[3] is qx and (ch is not None if last else nm(z) == "element" and z.args[3].op == "K" and dom_of(q, z.args[2], q.nlen(pts)))
                    oks.append(good)
                rep.verdict(False if False in oks else None if None in oks else True, nme, w, f"openings: {show(body)} then {show(ps[1][1])}")
            oi = okof(f(pf, "proof").args[0]) if f(pf, "proof").op == "field" else None
            if oi is None or nm(oi) != "open_internal":
                rep.unk("open-multilinear", w, pp(f(pf, "proof"), 4))
            else:
                mg = okof(oi.args[3])
                ok = oi.args[2] is mpp and mg is not None and nm(mg) == "merge_polynomials" and mg.args[2] is polys
                rep.verdict(ok and line_point(q, oi.args[4], pts), "open-multilinear", w, f"multilinear opening: {pp(oi, 5)}")
                rep.verdict(str(f(pf, "proof").args[1]) == "0", "open-multilinear", w, "the proof is not the opening")
            cs.discard(None)
            sides["prover"] = side(rep, q, w, cs, cm, pts, com)
    a, b = sides.get("prover"), sides.get("verifier")
    if a is not None and b is not None:
        rep.verdict(a == b, "agreement", "batch transcript", f"prover absorbs {a}, verifier {b}")
    else:
        rep.unk("agreement", "batch transcript", "a transcript was not recognised")
    iop(rep, prog)


def side(rep, q, w, cs, cm, pts, com):
    if len(cs) != 1:
        rep.verdict(False if len(cs) > 1 else None, "transcript", w, f"{len(cs)} different challenges")
        return None
    st, sq = next(iter(cs))
    root = []

    def stop(t):
        if t.op == "call" and nm(t) == "new":
            root.append(t)
            return True
        return False
    its = chain(q, st, stop)
    ab = None if its is None else absorbed(q, its, pts)
    if ab is None or len(root) != 1:
        rep.unk("transcript", w, items_text(its))
        return None
    got = [r for _, r in ab]
    want = {"merged commitment": cm, "points": "points", "commitment of the univariate polynomial": com}
    miss = [n for n, x in want.items() if not any(g is x or g == x for g in got)]
    odd = [g for g in got if isinstance(g, Term) and not pure(g, ("commit",)) and not any(g is x for x in want.values())]
    rep.verdict(True if not miss else (None if odd else False), "transcript", w, f"the challenge does not depend on: {', '.join(miss)} (absorbed: {[show(g) if isinstance(g, Term) else g for g in got]})")
    roles = {cm: "commitment", com: "q"}
    key = lambda l: show(q.norm(l))
    return (key(root[0].args[-1]), tuple((key(l), roles.get(r, r) if isinstance(r, Term) and r in roles else show(r) if isinstance(r, Term) else r) for l, r in ab), key(sq.args[3]))


def eqlen(q, kf, p, pts):
    """every point has the length of the first"""
    if p[0] != "Eq":
        return False
    a, b = p[1], p[2]
    f0 = q.nlen(index(pts, const(0)))
    if b is f0:
        a, b = b, a
    if a is not f0 or b.op != "len":
        return False
    e = b.args[0]
    return e.op == "elem" and (e.args[0] is pts or e.args[0].op == "skip" and e.args[0].args[0] is pts and e.args[0].args[1] is const(1))


def count_n(q, kf, dom, pts, vals, opens):
    """the loop visits positions 0..points.len(), values and openings being one longer"""
    if dom is None:
        return False
    while dom.op == "enumerate":
        dom = dom.args[0]
    n = q.nlen(pts)
    if dom is pts or dom.op == "zip" and pts in dom.args[:2]:
        return True
    if dom.op == "take":
        return dom.args[1] is n
    if dom.op == "slice" and dom.args[1] is const(0):
        return dom.args[2] is n
    if dom.op == "agg" and dom.args[0].split("::")[-1] == "Range":
        return dom.args[3] is const(0) and same(q, dom.args[4], n) is True
    return False if dom in (vals, opens) or dom.op in ("skip", "stepby") else None


def dom_of(q, d, n):
    """the evaluation domain is the one built for n points"""
    c = okof(q.norm(d))
    if c is None or nm(c) not in ("new", "get_uni_domain"):
        return None
    return c.args[-1] is n


def line_point(q, t, pts):
    """the vector of the interpolating polynomials, last first, evaluated at the challenge"""
    ew = elementwise(q, t)
    if ew is None:
        return None
    dom, b = ew[0], q.norm(ew[1])
    if nm(b) != "evaluate" or challenge_of(q, b.args[3]) is None:
        return False if nm(b) == "evaluate" and nm(b.args[3]) in ("element",) else None
    if dom.op == "rev":
        c = okof(dom.args[0])
        return c is not None and nm(c) == "build_l" and c.args[3] is pts
    return False if okof(dom) is not None else None


def iop(rep, prog):
    for name in ("get_and_append_challenge", "get_and_append_byte_challenge"):
        fn = rep.anchor(prog, C, name, "IOPTranscript")
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn)
        w = fn.path
        s = arg(fn, 1)
        facts, _ = accept_facts(an, q, rejecting=lambda v: False)
        expect(rep, facts, "iop-empty", w, lambda p: p[0] == "false" and p[1] is f(s, "is_empty"), "a challenge is handed out before anything was absorbed")
        sq = [e for e in an.events if e.name.split("::")[-1] == "challenge_bytes"]
        ap = [e for e in an.events if e.name.split("::")[-1] == "append_message"]
        rep.verdict(bool(sq) and all(q.norm(e.args[1]) is arg(fn, 2) for e in sq), "iop-label", w, "the challenge does not use the caller's label")
        ex = ok_exits(an)
        done = [e for e in ap if an.must_pass(e.node.id, [x.id for x in ex])]
        rep.verdict(bool(done), "iop-absorb-challenge", w, "the challenge handed out is not absorbed")
        if name == "get_and_append_challenge":
            for _, r in returned(q, ex):
                ch = challenge_of(q, r)
                rep.verdict(None if ch is None else True, "iop-challenge", w, pp(r, 5))
                if ch is not None:
                    buf = ch[1].args[4]
                    rep.verdict(buf.op != "repeat" or int(buf.args[1]) >= 64, "iop-width", w, f"challenge reduced from {pp(buf, 3)}")
                    rep.verdict(any(serialised(q, e.args[2]) is q.norm(r) for e in done), "iop-absorb-challenge", w, "another value than the challenge is absorbed")
    for name in ("append_message", "append_serializable_element"):
        fn = rep.anchor(prog, C, name, "IOPTranscript")
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn)
        w = fn.path
        ex = ok_exits(an)
        ap = [e for e in an.events if e.name.split("::")[-1] == "append_message" and an.must_pass(e.node.id, [x.id for x in ex])]
        want = (lambda t: q.norm(t) is arg(fn, 3)) if name == "append_message" else lambda t: serialised(q, t) is arg(fn, 3)
        rep.verdict(bool(ap) and any(want(e.args[2]) for e in ap), "iop-append", w, "the message is not absorbed as given")
        rep.verdict(bool(ap) and all(q.norm(e.args[1]) is arg(fn, 2) for e in ap), "iop-label", w, "the message is not absorbed under the caller's label")


# ---------------------------------------------------------------- K05
PERM = {"reverse": lambda v, k: v[::-1], "rotate_left": lambda v, k: v[k:] + v[:k], "rotate_right": lambda v, k: v[-k:] + v[:-k] if k else v}


def layout(q, t, n, roots):
    """entries of a vector built by concatenating, rotating and reversing the root vectors of length n, as (root, index); None when not recognised"""
    t = q.norm(t)
    for nme, r in roots.items():
        if t is q.norm(r):
            return [(nme, i) for i in range(n)]
    if t.op == "out" and nm(t.args[0]) in PERM and t.args[1] == 0:
        c = t.args[0]
        v = layout(q, c.args[2], n, roots)
        k = ieval(q, c.args[3], {}) if len(c.args) > 3 else 0
        return None if v is None or k is None or (k and k > len(v)) else PERM[nm(c)](v, k)
    if t.op == "rev":
        v = layout(q, t.args[0], n, roots)
        return None if v is None else v[::-1]
    parts = None
    if t.op == "concat" and t.args[0].op == "agg":
        parts = t.args[0].args[3:]
    elif t.op in ("chain", "ext"):
        parts = t.args[:2]
    elif t.op == "push":
        parts = None
        v = layout(q, t.args[0], n, roots)
        e = entry(q, t.args[1], n, roots)
        return None if v is None or e is None else v + [e]
    elif t.op == "agg" and t.args[0] == "array":
        es = [entry(q, x, n, roots) for x in t.args[3:]]
        return None if None in es else es
    elif t.op in ("skip", "take"):
        v, k = layout(q, t.args[0], n, roots), ieval(q, t.args[1], {q.nlen(r): n for r in roots.values()})
        return None if v is None or k is None else v[k:] if t.op == "skip" else v[:k]
    elif t.op == "slice":
        v = layout(q, t.args[0], n, roots)
        env = {q.nlen(r): n for r in roots.values()}
        lo = ieval(q, t.args[1], env)
        hi = n if t.args[2].op == "end" else ieval(q, t.args[2], env)
        return None if v is None or lo is None or hi is None else v[lo:hi]
    if parts is not None:
        vs = [layout(q, x, n, roots) for x in parts]
        return None if None in vs else sum(vs, [])
    return None


def entry(q, t, n, roots):
    t = q.norm(t)
    if t.op == "index":
        v = layout(q, t.args[0], n, roots)
        i = t.args[1]
        k = n - i.args[0].args[0] if i.op == "fromend" and i.args[0].op == "const" else ieval(q, i, {q.nlen(r): n for r in roots.values()})
        return None if v is None or k is None or not 0 <= k < len(v) else v[k]
    return None


@check("K05", [C], """Dense polynomials with field or group coefficients, and Toeplitz products. Decided: evaluation is the Horner recurrence over all coefficients from the highest to the
lowest, or the constant coefficient only where the point is zero; evaluation over a domain is refused when the polynomial does not fit, otherwise it is the transform of the coefficients
padded to the domain; a Toeplitz matrix with empty, unequal or inconsistent column and row is refused; the product is refused unless the vector has the dimension and a power-of-two
length, otherwise it is the inverse transform of the element-wise product of the transforms of the embedding column (layout tabulated for sizes 1 to 6) and the zero-padded vector, cut
to the dimension.""", floor=3)
def k05(rep, prog):
    fn = rep.anchor(prog, C, "evaluate", "GeneralDensePolynomial")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        horner(rep, an, q, fn.path, f(arg(fn, 1), "coeffs"), arg(fn, 2))
    fn = rep.anchor(prog, C, "batch_evaluate", "GeneralDensePolynomial")
    if fn is not None:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "evaluate")
        w = fn.path
        s, pts = arg(fn, 1), arg(fn, 2)
        for e in an.exits():
            for cs, v in case_list(q, e):
                if q.seq(v) == []:
                    emp = any(is_empty_cond(q, c, lab, pts) for c, lab in cs)
                    rep.verdict(emp or None, "batch-empty", w, "an empty list is returned for a non-empty list of points")
                    continue
                ew = elementwise(q, v)
                if ew is None or nm(q.norm(ew[1])) != "evaluate":
                    rep.unk("batch-evaluate", w, pp(v, 4))
                    continue
                b = KForm(q)(ew[1])
                rep.verdict(covers(q, KForm(q), ew[0], [pts]) and b.args[2] is s and b.args[3].op == "index" and b.args[3].args[0] is pts and b.args[3].args[1].op == "K",
                            "batch-evaluate", w, f"entries {pp(b, 4)} for {pp(ew[0], 3)}")
    fn = rep.anchor(prog, C, "batch_evaluate_rou", "GeneralDensePolynomial")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        co, dom = f(arg(fn, 1), "coeffs"), arg(fn, 2)
        ln = lambda a: "coefficients" if a is q.nlen(co) else "size" if nm(a) == "size" and q.norm(a.args[2]) is dom else None
        refuses(rep, an, q, "rou-fits", w, ok_exits(an), ln, {"coefficients": range(0, 5), "size": (1, 2, 4)}, lambda e: e["coefficients"] > e["size"],
                "polynomials larger than the domain are accepted", lambda e: e["coefficients"] <= e["size"])
        for _, r in returned(q, ok_exits(an)):
            r = q.norm(r)
            if nm(r) != "fft":
                rep.unk("rou-transform", w, pp(r, 4))
                continue
            rep.verdict(q.norm(r.args[2]) is dom and padded(q, r.args[3], co, lambda a: ln(a) == "size"), "rou-transform", w, f"result is {pp(r, 5)}")
    fn = rep.anchor(prog, C, "new", "ToeplitzMatrix")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        col, row = arg(fn, 1), arg(fn, 2)
        ln = {q.nlen(col): "column", q.nlen(row): "row"}
        refuses(rep, an, q, "toeplitz-lengths", w, ok_exits(an), lambda a: ln.get(a), {"column": range(0, 4), "row": range(0, 4)}, lambda e: e["column"] == 0 or e["column"] != e["row"],
                "empty or unequal column and row are accepted", lambda e: e["column"] == e["row"] > 0)
        facts, _ = accept_facts(an, q)
        c0, r0 = q.norm(index(col, const(0))), q.norm(index(row, const(0)))
        expect(rep, facts, "toeplitz-corner", w, lambda p: p[0] == "Eq" and {p[1], p[2]} == {c0, r0}, "a column and row that differ in the corner are accepted")
        for _, r in returned(q, ok_exits(an)):
            rep.verdict(True if f(r, "col") is col and f(r, "row") is row else False if pure(r) else None, "toeplitz-fields", w, f"matrix is {pp(r, 4)}")
    fn = rep.anchor(prog, C, "fast_vec_mul", "ToeplitzMatrix")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        product(rep, an, q, fn, {"column": f(arg(fn, 1), "col"), "row": f(arg(fn, 1), "row")}, arg(fn, 2), True)
    fn = rep.anchor(prog, C, "fast_vec_mul", "CirculantMatrix")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        product(rep, an, q, fn, {"column": f(arg(fn, 1), "col")}, arg(fn, 2), False)


def is_empty_cond(q, c, lab, v):
    p = q.pred_of(q.norm(c), set(lab) if isinstance(lab, (set, frozenset)) else {lab} if not isinstance(lab, tuple) else {0, 1} - set(lab[1]))
    n = q.nlen(v)
    return p[0] == "Eq" and {p[1], p[2]} == {n, const(0)} or p[0] == "Lt" and p[1] is n and p[2] is const(1)


def padded(q, t, v, issize):
    """v extended with zeros up to the size"""
    t = q.norm(t)
    if t.op == "out" and nm(t.args[0]) == "resize_with" and t.args[1] == 0:
        c = t.args[0]
        return q.norm(c.args[2]) is v and issize(q.norm(c.args[3])) and "zero" in str(c.args[4].args[0])
    if t.op == "resize":
        return q.norm(t.args[0]) is v and issize(q.norm(t.args[1])) and nm(t.args[2]) == "zero"
    return False if t is v else None


def product(rep, an, q, fn, roots, v, toep):
    w = fn.path
    n = q.nlen(v)
    roots = {k: q.norm(x) for k, x in roots.items()}
    dims = {q.nlen(x): "dimension" for x in roots.values()}
    pw = lambda k: k > 0 and k & (k - 1) == 0
    refuses(rep, an, q, "product-shape", w, ok_exits(an), lambda a: "vector" if a is n else dims.get(a), {"vector": range(0, 6), "dimension": range(0, 6)},
            lambda e: not pw(e["vector"]) or e["vector"] != e["dimension"], "vectors of another dimension or of a length that is no power of two are accepted",
            lambda e: pw(e["vector"]) and e["vector"] == e["dimension"])
    for _, r in returned(q, ok_exits(an)):
        r = q.norm(r)
        if toep:
            if r.op in ("trunc", "take"):
                rep.verdict(r.args[1] is n or r.args[1] in dims, "product-cut", w, f"result is cut to {pp(r.args[1], 3)}")
                r = q.norm(r.args[0])
            elif r.op == "slice":
                rep.verdict(r.args[1] is const(0) and (r.args[2] is n or r.args[2] in dims), "product-cut", w, f"result is cut to {pp(r.args[1], 3)}..{pp(r.args[2], 3)}")
                r = q.norm(r.args[0])
            else:
                rep.verdict(False if nm(r) == "ifft" else None, "product-cut", w, "the result is not cut to the dimension")
        if nm(r) != "ifft":
            rep.verdict(False if nm(r) == "fft" else None, "product-transform", w, pp(r, 5))
            continue
        d = q.norm(r.args[2])
        ew = elementwise(q, r.args[3])
        if ew is None:
            rep.unk("product-transform", w, pp(r, 5))
            continue
        m = KForm(q).ring(ew[1])
        fs = []
        for mono_, c in m.items():
            if c == 1 and len(m) == 1:
                fs = [x for x in mono_ if x.op == "index" and nm(x.args[0]) == "fft"]
                if len(fs) != len(mono_):
                    fs = []
        if len(fs) != 2:
            rep.verdict(None, "product-transform", w, pp(ew[1], 5))
            continue
        okd = all(q.norm(x.args[0].args[2]) is d for x in fs)
        rep.verdict(okd, "product-domain", w, "the transforms use different domains")
        dc = okof(d)
        want = {1: 2, 2: 4, 4: 8} if toep else {1: 1, 2: 2, 4: 4}
        if dc is not None and nm(dc) == "new":
            sz = dc.args[-1]
            rep.verdict(all(ieval(q, sz, {n: k, **{x: k for x in dims}}) == s for k, s in want.items()), "product-size", w, f"domain size {pp(sz, 4)}")
        ops = [q.norm(x.args[0].args[3]) for x in fs]
        vec = [x for x in ops if find(q, x, lambda t: t is v)]
        mat = [x for x in ops if x not in vec]
        if len(vec) != 1 or len(mat) != 1:
            rep.unk("product-operands", w, "; ".join(pp(x, 4) for x in ops))
            continue
        if toep:
            sized = lambda a: all(ieval(q, a, {n: k, **{x: k for x in dims}}) == 2 * k for k in (1, 2, 4))
            rep.verdict(padded(q, vec[0], v, sized), "product-padding", w, f"vector operand: {pp(vec[0], 4)}")
        else:
            rep.verdict(True if vec[0] is v else None, "product-operand", w, pp(vec[0], 4))
        ok = True
        for k in range(1, 7):
            lay = layout(q, mat[0], k, roots)
            if lay is None:
                ok = None
                break
            col = [("column", i) for i in range(k)]
            exp = col + [("row", 0)] + [("row", k - i) for i in range(1, k)] if toep else col
            # the corner entries agree, and the middle entry of the embedding is free
            eq = len(lay) == len(exp) and all(a == b or toep and i == k or {a, b} == {("column", 0), ("row", 0)} for i, (a, b) in enumerate(zip(lay, exp)))
            if not eq:
                ok = False
                break
        rep.verdict(ok, "product-embedding", w, f"embedding column for size {k}: {layout(q, mat[0], k, roots)}")


def horner(rep, an, q, w, co, z):
    kf = KForm(q)
    for e in an.exits():
        for cs, v in case_list(q, e):
            if nm(v) == "zero":
                zs = [c for c, lab in cs if is_empty_cond(q, c, lab, co)] or find_all_zero(q, e, v, an, co)
                rep.verdict(True if zs else None, "evaluate-zero", w, "zero is returned for other polynomials")
            elif v is q.norm(index(co, const(0))):
                ok = any(nm(q.norm(c)) == "is_zero" and q.norm(c).args[2] is z and lab == 1 for c, lab in cs)
                rep.verdict(ok, "evaluate-at-zero", w, "the constant coefficient is returned for points other than zero")
            elif v.op == "phi" and recur(q, v) is not None:
                r2 = recur(q, v)
                h = q.loop_phi(v)[0]
                dom = q.loop_domain(h)
                st = kf.ring(r2[1])
                c = [x for m in st for x in m if x.op == "index" and x.args[0] is co]
                ok = None
                if len(set(c)) == 1:
                    want = {tuple(sorted((v, z), key=lambda t: t.id)): 1, (c[0],): 1}
                    ok = st == want and ring(q, r2[0]) == {}
                rep.verdict(ok, "evaluate-horner", w, f"recurrence {poly_text(st)} from {pp(r2[0], 3)}")
                full = dom is not None and dom.op == "rev" and covers(q, kf, dom.args[0], [co])
                rep.verdict(True if full else False if dom is not None and (dom is co or dom.op in ("rev", "skip")) else None, "evaluate-order", w, f"coefficients are visited as {show(dom) if dom is not None else '?'}")
            else:
                rep.verdict(False if v.op == "index" and v.args[0] is co and q.norm(v.args[1]).op == "const" else None, "evaluate-horner", w, f"the value is {pp(v, 4)}")


def find_all_zero(q, e, v, an, co):
    """zero returned where every coefficient was seen to be zero"""
    return [n for n in an.live_nodes if n.cond is not None and nm(q.norm(an.simp(n.cond[0]))) == "is_zero" and find(q, an.simp(n.cond[0]), lambda t: t is co)]
