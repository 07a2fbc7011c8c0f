"""jf-utils: Reed-Solomon code."""
from core import *
from engine import *
from q import *
from kform import K, KForm, isum
from utils_rules import nm, case_list, U


def is_zero_t(t):
    return nm(t) == "zero" and len(t.args) == 2 or (t.op == "kconst" and t.args[0].endswith("ZERO"))


def site_of(t):
    """iteration variables a canonical index depends on"""
    return {x for x in all_sub(t) if x.op == "K"}


def all_sub(t):
    seen, stk, out = set(), [t], []
    while stk:
        x = stk.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        stk.extend(a for a in x.args if isinstance(a, Term))
    return out


def okval(an, q, t):
    """value carried by the Ok alternative of a result-valued phi"""
    t = q.norm(t)
    if t.op == "field" and t.args[0].op == "as" and t.args[0].args[1] in ("Ok", "Some"):
        x = t.args[0].args[0]
        if x.op == "phi":
            vs = set()
            for v in an.phis.get(x, {}).values():
                v = an.simp(v)
                if v.op == "agg" and v.args[1] == t.args[0].args[1]:
                    vs.add(an.simp(v.args[3]))
            if len(vs) == 1:
                return vs.pop()
    return t


# ------------------------------------------------------------------------ U04
@check("U04", [U], """Value-flow summary of the Reed-Solomon encoder (closures and iterator chains inlined). The number of shares, the evaluation points and the loop-carried
value/power recurrences are extracted and compared as polynomials with: shares k = 1 .. len+parity, value' = value + power * coefficient, power' = power * k from value = 0 and
power = 1 (or Horner's rule from the last coefficient).""", floor=1)
def u04(rep, prog):
    fn = rep.anchor(prog, U, "reed_solomon_erasure_encode")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn)
    kf = KForm(q)
    w = fn.path
    D, P = T("arg", 1, fn.locals[1][1]), T("arg", 2, fn.locals[2][1])
    n = q.nlen(D)
    for e in an.exits():
        for _, v in case_list(q, e):
            v = q.norm(v)
            if v.op != "map":
                ps = q.seq(v)
                if len(ps) == 1 and ps[0][0] == "loop" and len(ps[0][2]) == 1 and ps[0][2][0][0] == "one":
                    dom, body, site = ps[0][1], ps[0][2][0][1], None
                else:
                    rep.unk("shares", w, pp(v, 3))
                    continue
            else:
                dom, body, site = v.args
            cnt = kf.i(q.nlen(dom)) if dom is not None else None
            if dom is not None and dom.op == "ridx":
                cnt = kf.i(q.nbin("Sub", dom.args[1], dom.args[0]))
            want = kf.i(q.nbin("Add", n, P))
            if cnt is None or any(x.op in ("len",) and x.args[0] is not D for x in all_sub(cnt)):
                rep.unk("share-count", w)
            else:
                rep.verdict(cnt is want, "share-count", w, f"{pp(cnt, 5)} shares are produced, not data length + parity")
            sites = [site] if site is not None else []
            # the value is a loop-carried polynomial evaluation
            r = recur(q, q.norm(body)) if q.norm(body).op == "phi" else None
            if r is None:
                rep.verdict(None if an.depends(q.norm(body), lambda t: t is D) or q.norm(body).op == "phi" else False, "share-value", w, f"a share is {pp(body, 3)}")
                continue
            V = q.norm(body)
            init, step, hd = r
            rep.verdict(ring(q, init) == {}, "value-start", w, f"accumulator starts at {pp(init, 3)}")
            sp = kf.ring(step)
            idom = q.loop_domain(hd)
            if idom is None:
                rep.unk("share-loop", w)
                continue
            ic = kf.i(q.nlen(idom)) if idom.op != "ridx" else kf.i(q.nbin("Sub", idom.args[1], idom.args[0]))
            rep.verdict(ic is kf.i(n), "all-coefficients", w, f"the accumulation runs over {pp(idom, 4)}, not over all coefficients")

            def coef_of(atoms):
                c = [a for a in atoms if a.op == "index" and a.args[0] is D]
                return c[0] if len(c) == 1 else None

            def point_ok(a):
                """is the atom the field element of share number 1 + K"""
                if a.op == "conv" or nm(a) in ("from", "from_u64"):
                    x = a.args[0] if a.op == "conv" else a.args[2]
                    if x.op == "cast":
                        return False
                    x = kf.isum(x)
                    ks = site_of(x)
                    if len(ks) != 1:
                        return False if not ks else None
                    return x is isum(next(iter(ks)), 1)
                return None
            # shape 1: running power
            if sp.get((V,)) == 1 and len(sp) == 2:
                m, c = [(m, c) for m, c in sp.items() if m != (V,)][0]
                cf = coef_of(m)
                X = [a for a in m if a.op == "phi"]
                if cf is None or not X:
                    rep.verdict(False if cf is not None and cf.args[1].op == "K" and len(m) == 1 else None, "value-step", w, f"a coefficient is added with {[pp(a, 3) for a in m if a is not cf]}")
                    continue
                kk = cf.args[1]
                rep.verdict(kk.op == "K", "coefficient-order", w, f"coefficient used in iteration K is number {pp(kk, 4)}")
                rep.verdict(c == 1 and len(m) == 2 and len(X) == 1, "value-step", w, "accumulator step is not value + power * coefficient: extra factor " + str([pp(a, 3) for a in m if a is not cf]))
                rx = recur(q, X[0])
                if rx is None:
                    rep.unk("power-step", w)
                    continue
                rep.verdict(ring(q, rx[0]) == {(): 1}, "power-start", w, f"power starts at {pp(rx[0], 3)}")
                xs = kf.ring(rx[1])
                if len(xs) == 1 and list(xs.values()) == [1]:
                    mm = list(next(iter(xs)))
                    if X[0] in mm:
                        mm.remove(X[0])
                        if len(mm) == 1:
                            rep.verdict(point_ok(mm[0]), "share-point", w, f"share K is evaluated at {pp(mm[0], 5)}, not at K + 1 counted from 1")
                        else:
                            rep.verdict(False if not mm or all(point_ok(a) is not None for a in mm) else None, "power-step", w, "the power is not multiplied by the point exactly once per coefficient")
                    else:
                        rep.fail("power-step", w, "the power does not accumulate")
                else:
                    rep.verdict(False, "power-step", w, f"power step is {pp(rx[1], 5)}")
            elif len(sp) == 2 and any(V in m and len(m) == 2 for m in sp):
                # Horner
                mv = [m for m in sp if V in m][0]
                mc = [m for m in sp if V not in m][0]
                pt = [a for a in mv if a is not V]
                rep.verdict(point_ok(pt[0]) if sp[mv] == 1 and len(pt) == 1 else False, "share-point", w, f"Horner step multiplies by {pp(pt[0], 4) if pt else ''}")
                cf = coef_of(mc)
                if cf is None or len(mc) != 1 or sp[mc] != 1:
                    rep.unk("value-step", w)
                else:
                    ks = site_of(cf.args[1])
                    ok = len(ks) == 1 and cf.args[1] is kf.isum(T("bin", "Sub", T("bin", "Sub", n, const(1)), next(iter(ks))))
                    rep.verdict(True if ok else (False if cf.args[1].op == "K" else None), "coefficient-order", w, f"Horner's rule must start from the last coefficient, uses {pp(cf.args[1], 4)}")
            else:
                ats = {a for m in sp for a in m}
                cf = coef_of(ats)
                known = cf is not None and cf.args[1].op == "K" and all(a is V or a is cf or a.op == "phi" and recur(q, a) is not None or point_ok(a) is not None for a in ats)
                rep.verdict(False if known else None, "value-step", w, f"the accumulator becomes {pp(step, 5)}")


# ------------------------------------------------------------------------ U05
def guard_grid(q, p, cls, spec, ranges):
    """compare the accept predicate of a guard with a specified predicate"""
    if p[0] not in NEG:
        return None, ""
    return grid(q, q.nbin(p[0], p[1], p[2]), lambda e: int(spec(e)), cls, ranges)


@check("U05", [U], """Value-flow summary of the Reed-Solomon decoders. Decided: acceptance is guarded on every path by at-least-data-size shares; every barycentric denominator is the
difference of two distinct points and is tested for zero (duplicate point) before the division, the zero case giving an error; points and evaluations come from the first and second
part of the same share; master polynomial, weights, quotient and accumulation recurrences equal the Lagrange ones as polynomials in iteration-number form; the domain variant rejects
empty shares and any index outside the domain and maps index to the domain element of the same number.""", floor=2)
def u05(rep, prog):
    fn = rep.anchor(prog, U, "reed_solomon_erasure_decode")
    if fn is not None:
        decode(rep, prog, fn)
    fr = rep.anchor(prog, U, "reed_solomon_erasure_decode_rou")
    if fr is not None:
        decode_rou(rep, prog, fr, fn)


def decode(rep, prog, fn):
    an, q = rep.analyse(prog, fn)
    kf = KForm(q)
    w = fn.path
    S, N = T("arg", 1, fn.locals[1][1]), T("arg", 2, fn.locals[2][1])
    oks = [n for n in an.exits() if n.exit.op == "agg" and n.exit.args[1] == "Ok"]
    if not oks:
        return rep.unk("decode", w, "no Ok exit recognised")
    # enough shares
    lenS = q.nlen(S)
    cls = lambda a: "s" if a is lenS else "n" if a is N else None
    ok, seen = None, False
    for g in an.guards(oks):
        p = q.accept(g)
        if p[0] in NEG:
            r, why = guard_grid(q, p, cls, lambda e: e["s"] >= e["n"], {"s": range(0, 12), "n": range(0, 12)})
            if r is not None:
                seen = True
                if r and g.must:
                    ok = True
    rep.verdict(True if ok else False, "enough-shares", w, "fewer shares than the data size are not rejected on every path" if not seen else "the share count test is not 'at least data size'")
    for e in oks:
        F = q.norm(e.exit).args[3]
        lagrange(rep, an, q, kf, w, S, N, F)


def count_is(kf, q, dom, N, S, delta=0):
    """does a loop run exactly N + delta times"""
    if dom is None:
        return None
    if dom.op == "agg" and dom.args[0].split("::")[-1] == "Range":
        dom = T("ridx", dom.args[3], dom.args[4], 0, "")
    if dom.op == "ridx":
        hi = dom.args[1]
        if hi.op == "min" and N in hi.args and q.nlen(S) in hi.args:
            hi = N  # at least N shares, by the share count guard
        c = kf.i(q.nbin("Sub", hi, dom.args[0]))
    else:
        x = dom
        while x.op in ("enumerate", "rev", "map"):
            x = x.args[0]
        if x.op == "take":
            # guarded: at least N shares
            c = kf.i(x.args[1])
            inner = x.args[0]
            while inner.op in ("enumerate", "rev", "map"):
                inner = inner.args[0]
            if inner is not S and q.nlen(inner) is not N:
                return None
        elif x.op == "zip":
            # entries of the array that is written to, next to those of others
            ys = [y for y in x.args if isinstance(y, Term) and not (y.op == "itermut" and y.args[0].op == "mref" and not y.args[0].args[2])]
            if len(ys) != 1 or ys[0].op in ("zip", "itermut"):
                return None
            return count_is(kf, q, ys[0], N, S, delta) or None
        elif x.op == "itermut":
            return None
        else:
            c = kf.i(q.nlen(x))
    return c is isum(N, delta)


def lagrange(rep, an, q, kf, w, S, N, F):
    # --- F[j] += w_i * y_i * B[j]
    root = array_root(q, F)
    eff = effects(q, F, root)
    if not eff or len(eff) != 1 or eff[0][0] != "loop":
        return rep.verdict(False if eff == [] and root.op == "fill" else None, "reconstruct", w, "result array not recognised, or never written to")
    if root.op == "fill":
        rep.verdict(ring(q, root.args[0]) == {}, "result-start", w, "result does not start at zero")
        rep.verdict(kf.i(root.args[1]) is kf.i(N), "result-length", w, f"result length is {pp(root.args[1], 4)}")
    else:
        rep.unk("result-start", w, pp(root, 3))
    _, onid, odom, ins, _ = eff[0]
    rep.verdict(count_is(kf, q, odom, N, S), "all-shares", w, f"interpolation runs over {pp(odom, 4)}, not over data-size shares")
    if len(ins) != 1 or ins[0][0] != "loop":
        return rep.unk("reconstruct", w, "accumulation loop not recognised")
    _, inid, idom, st, fphi = ins[0]
    rep.verdict(count_is(kf, q, idom, N, S), "all-coefficients", w, f"accumulation runs over {pp(idom, 4)}, not over all coefficients")
    if len(st) != 1 or st[0][0] != "store":
        return rep.unk("reconstruct", w)
    ji = kf.i(st[0][1])
    val = {}
    for m, c in ring(q, st[0][2]).items():
        val[tuple(sorted((resolve_index(an, q, kf, a) for a in m), key=lambda z: z.id))] = c
    acc = [m for m in val if len(m) == 1 and m[0].op == "index" and an.simp(m[0].args[0]) is an.simp(st[0][3])]
    if len(acc) != 1 or len(val) != 2:
        known = lambda a: a.op in ("bindk", "index") or a.op == "field" and a.args[0].op == "index" and a.args[0].args[0] is S
        v = False if len(val) == 1 and not acc or len(val) > 2 and len(acc) == 1 and all(known(a) for m in val for a in m) else None
        return rep.verdict(v, "accumulate", w, "contributions of the shares are not summed")
    rep.verdict(acc[0][0].args[1] is ji and val[acc[0]] == 1, "accumulate", w, "accumulates into a different coefficient")
    m = [x for x in val if x is not acc[0]][0]
    c = val[m]
    ys = [a for a in m if a.op == "field" and a.args[0].op == "index" and a.args[0].args[0] is S]
    bs = [a for a in m if a.op == "index" and array_root(q, a.args[0]).op in ("fill", "phi") and a.args[0].op in ("phi", "store")]
    ws = [a for a in m if a not in ys and a not in bs]
    if len(bs) != 1 or len(ws) > 1 or len(ys) > 1:
        return rep.unk("contribution", w, str([pp(a, 4) for a in m]))
    rep.verdict(c == 1, "contribution", w, f"contribution has coefficient {c}")
    if not ys:
        rep.fail("evaluation", w, "the share's evaluation is not used")
    else:
        rep.verdict(str(ys[0].args[1]) == "1", "evaluation", w, f"the evaluation is read from part {ys[0].args[1]} of the share")
    rep.verdict(bs[0].args[1] is ji, "contribution-index", w, f"coefficient {pp(ji, 4)} receives quotient coefficient {pp(bs[0].args[1], 4)}")
    I = ys[0].args[0].args[1] if ys else None
    # --- weights
    if not ws:
        rep.fail("weight", w, "the barycentric weight is not used")
    else:
        weights(rep, an, q, kf, w, S, N, ws[0], I, F)
    # --- quotient B
    B = bs[0].args[0]
    broot = None
    t = an.simp(B)
    # follow to the state at the beginning of the outer iteration
    body = an.loops()[onid][0]
    x = t
    for _ in range(20):
        if x.op == "store":
            x = an.simp(x.args[0])
        elif x.op == "phi" and q.loop_phi(x) is not None and x.args[0] in body and x.args[0] != onid:
            ini = {an.simp(z) for z in q.loop_phi(x)[1]}
            if len(ini) != 1:
                break
            x = ini.pop()
        else:
            break
    be = effects(q, B, x)
    if be is None or len(be) != 2 or be[0][0] != "store" or be[1][0] != "loop" or len(be[1][3]) != 1 or be[1][3][0][0] != "store":
        short_ = be is not None and len(be) == 1
        return rep.verdict(False if short_ else None, "quotient", w, "the quotient recurrence misses its leading coefficient or its loop")
    nm1 = isum(N, -1)
    rep.verdict(kf.i(be[0][1]) is nm1 and ring(q, be[0][2]) == {(): 1}, "quotient-lead", w, f"leading quotient coefficient: [{pp(be[0][1], 4)}] = {pp(be[0][2], 4)}, must be [n-1] = 1")
    rep.verdict(count_is(kf, q, be[1][2], N, S, -1), "quotient-loop", w, f"quotient recurrence runs over {pp(be[1][2], 4)}, must run n-1 times")
    s = be[1][3][0]
    bi = kf.i(s[1])
    ks = site_of(bi)
    if len(ks) != 1:
        return rep.unk("quotient-step", w)
    k = next(iter(ks))
    rep.verdict(bi is isum(N, -2, (-1, k)), "quotient-order", w, f"quotient coefficients must be computed from n-2 downwards, iteration K writes {pp(bi, 5)}")
    rv = {}
    for mm, cc in ring(q, s[2]).items():
        rv[tuple(sorted((resolve_index(an, q, kf, a) for a in mm), key=lambda z: z.id))] = cc
    up = isum(bi, 1)
    one = [a for a in rv if len(a) == 1]
    two = [a for a in rv if len(a) == 2]
    if len(one) != 1 or len(two) != 1 or len(rv) != 2:
        known = all(point_of(a, S) or a.op == "index" for m in rv for a in m)
        return rep.verdict(False if len(rv) < 2 or known else None, "quotient-step", w, f"quotient step {pp(s[2], 6)}")
    a0 = one[0][0]
    px = [a for a in two[0] if point_of(a, S)]
    pb = [a for a in two[0] if a.op == "index" and an.simp(a.args[0]) is an.simp(s[3])]
    if a0.op != "index" or len(px) != 1 or len(pb) != 1:
        return rep.unk("quotient-step", w, f"{pp(s[2], 6)}")
    rep.verdict(rv[one[0]] == 1 and rv[two[0]] == 1 and a0.args[1] is up and pb[0].args[1] is up, "quotient-step", w, f"quotient step must be B[j] = A[j+1] + x_i * B[j+1], found {pp(s[2], 8)}")
    rep.verdict(px[0].args[0].args[1] is I if I is not None else None, "quotient-point", w, "the quotient divides by a different point than the share's")
    rep.verdict(str(px[0].args[1]) == "0", "points", w, f"evaluation points are read from part {px[0].args[1]} of the share")
    master(rep, an, q, kf, w, S, N, a0.args[0])


def point_of(a, S):
    return a.op == "field" and a.args[0].op == "index" and a.args[0].args[0] is S


def resolve_index(an, q, kf, a):
    return kf(a)


def weights(rep, an, q, kf, w, S, N, wt, I, F):
    """wt: weight of share I in canonical form: the value of a loop-carried product"""
    if wt.op == "bindk":
        rep.verdict(wt.args[2] is I if I is not None else None, "weight-share", w, f"share {pp(I, 4)} is scaled with weight number {pp(wt.args[2], 4)}")
        wt = wt.args[0]
    elif wt.op == "index":
        rep.verdict(wt.args[1] is I if I is not None else None, "weight-share", w, f"share {pp(I, 4)} is scaled with weight number {pp(wt.args[1], 4)}")
    v = okval(an, q, wt)
    gives = lambda b: any(x is v or x.op == "agg" and x.args[1] in ("Ok", "Some") and an.simp(x.args[3]) is v for x in [b] + [an.simp(x) for x in an.phis.get(b, {}).values()])
    for m in [y for y in an.subterms(F) if y.op == "map" and gives(an.simp(y.args[1]))]:
        rep.verdict(count_is(kf, q, q.norm(m.args[0]), N, S), "weight-count", w, f"weights are computed for {pp(m.args[0], 4)}, not for the points used")
    sub = {}
    inv = False
    if v.op == "field" and v.args[0].op == "as" and nm(v.args[0].args[0]) == "inverse":
        inv = True
        v = an.simp(v.args[0].args[0].args[2])
    if v.op != "phi":
        return rep.verdict(None if an.depends(v, lambda t: t is S) else False, "weight", w, f"the weight is {pp(v, 4)}")
    lp = q.loop_phi(v)
    if lp is None or len({an.simp(x) for x in lp[1]}) != 1 or not lp[2]:
        return rep.unk("weight", w, "product not recognised")
    hd, init = lp[0], an.simp(lp[1][0])
    rep.verdict(ring(q, init) == {(): 1}, "weight-start", w, f"weight product starts at {pp(init, 3)}")
    dom = q.loop_domain(hd)
    filt = None
    if dom is not None and dom.op == "filter":
        filt, dom = dom, dom.args[0]
    rep.verdict(count_is(kf, q, dom, N, S), "weight-loop", w, f"weight product runs over {pp(dom, 4)}, not over all points")
    cs = []
    lbody = an.loops()[hd][0]
    for p, x in an.phis.get(v, {}).items():
        if p in lbody:
            c1 = q.cases(an.nodes[p], x)
            if c1 is None:
                return rep.unk("weight-step", w)
            pc = q.path_conds(p, hd)[0]
            cs += [(tuple(pc) + tuple(c), y) for c, y in c1]
    act = [(c, x) for c, x in cs if an.simp(x) is not an.simp(v)]
    skip = [c for c, x in cs if an.simp(x) is an.simp(v)]
    if len({x for _, x in act}) != 1:
        return rep.unk("weight-step", w)
    conds, x = act[0]
    x = q.norm(x)
    den, how = None, None
    if x.op == "bin" and x.args[0] == "Div" and x.args[1] is v:
        den, how = x.args[2], "div"
    elif x.op == "bin" and x.args[0] == "Mul":
        o = x.args[2] if x.args[1] is v else x.args[1]
        if o.op == "field" and o.args[0].op == "as" and nm(o.args[0].args[0]) == "inverse":
            den, how = o.args[0].args[0].args[2], "inv"
        elif nm(o) == "inverse":
            den, how = o.args[2], "inv"
        else:
            den, how = o, "mul"
    if den is None or how is None:
        return rep.unk("weight-step", w, pp(x, 5))
    if how == "mul" and not inv:
        rep.fail("weight-step", w, "the weight multiplies by the point differences instead of dividing")
        return
    d = kf.ring(den)
    plus = [m for m, c in d.items() if c == 1 and len(m) == 1 and point_of(m[0], S)]
    minus = [m for m, c in d.items() if c == -1 and len(m) == 1 and point_of(m[0], S)]
    if len(d) != 2 or len(plus) != 1 or len(minus) != 1:
        return rep.verdict(False if all(point_of(a, S) for m in d for a in m) else None, "weight-denominator", w, f"denominator is {pp(den, 5)}")
    pi, pj = plus[0][0].args[0].args[1], minus[0][0].args[0].args[1]
    loopk = K_of_header(q, hd)
    rep.verdict(str(plus[0][0].args[1]) == "0" and str(minus[0][0].args[1]) == "0", "points", w, "evaluation points are not read from the first part of the share")
    ok = None
    if pi.op == "K" and pj.op == "K" and loopk is not None:
        ok = pi is not loopk and pj is loopk
    rep.verdict(ok, "weight-denominator", w, "denominator must be (own point) - (other point)")
    # skipped exactly when i = j
    sel = []
    for c, lab in conds:
        c = q.norm(c)
        if c.op == "bin" and c.args[0] in NEG and {kf(c.args[1]), kf(c.args[2])} == {pi, pj}:
            o = c.args[0] if lab == 1 else NEG[c.args[0]]
            sel.append(o)
    if filt is not None:
        for y in find(q, filt, lambda y: y.op == "bin" and y.args[0] in NEG):
            if {kf(y.args[1]), kf(y.args[2])} == {pi, pj}:
                sel.append(y.args[0])
    rep.verdict(True if sel == ["Ne"] else (False if sel and filt is None else None if not sel or filt is not None else False), "weight-skip", w, f"exactly the own point must be skipped, condition {sel}")
    # every skipped iteration is the own point's
    eqij = lambda c, lab: q.norm(c).op == "bin" and q.norm(c).args[0] in ("Eq", "Ne") and {kf(x) for x in q.norm(c).args[1:]} == {pi, pj} and lab == (1 if q.norm(c).args[0] == "Eq" else 0)
    neij = lambda c, lab: q.norm(c).op == "bin" and q.norm(c).args[0] in ("Eq", "Ne") and {kf(x) for x in q.norm(c).args[1:]} == {pi, pj} and lab == (0 if q.norm(c).args[0] == "Eq" else 1)
    for path in q.loop_paths(hd) or []:
        if an.simp(q.on_path(path, hd, v)) is not v:
            continue
        c = q.conds_on(path, hd)
        if not any(eqij(t, lab) for t, lab in c):
            rep.verdict(False if any(neij(t, lab) for t, lab in c) else None, "weight-skip", w, "a point other than the own one is left out of the weight")
    # duplicate points
    if how == "div" or (how == "inv" and nm(q.norm(x)) == "inverse"):
        dups = [(c, lab) for c, lab in conds if nm(q.norm(c)) == "is_zero" and same_ring(kf, q.norm(c).args[2], d)]
        differs = lambda c, lab: q.norm(c).op == "bin" and q.norm(c).args[0] == ("Ne" if lab == 1 else "Eq") and (is_zero_t(q.norm(c).args[2]) or is_zero_t(q.norm(c).args[1]) or pair_points(kf, q.norm(c), S))
        alt = any(differs(c, lab) for c, lab in conds) or any(lab == 0 for _, lab in dups)
        if not alt:
            # a separate pass over the points may have rejected duplicates before
            oks = [n for n in an.exits() if not (n.exit.op == "agg" and n.exit.args[1] == "Err")]
            alt = None if any(differs(g.cond, l) for g in an.guards(oks) for l in g.acc) else False
        rep.verdict(alt, "duplicate-points", w, "a point difference is divided by without having been tested for zero (duplicate points)")
        # duplicates must not be skipped over either
        quiet = [c for c in skip if any(nm(q.norm(t)) == "is_zero" and lab == 1 and same_ring(kf, q.norm(t).args[2], d) or differs(t, 1 - lab) if lab in (0, 1) else False for t, lab in c)]
        rep.verdict(not quiet, "duplicate-rejected", w, "coinciding points are skipped instead of rejected")
    else:
        rep.ok("duplicate-points", w)


def pair_points(kf, c, S):
    return all(point_of(kf(x), S) for x in c.args[1:])


def same_ring(kf, t, d):
    r = kf.ring(t)
    return r == d or {m: -c for m, c in r.items()} == d


def K_of_header(q, hd):
    for cond, stay, n in q.exit_conds(hd):
        c = q.an.simp(cond)
        if c.op == "disc" and c.args[0].op == "optelem":
            return K(c.args[0].args[2])
        if c.op == "more":
            return K(c.args[1])
        if c.op == "bin":
            for x in c.args[1:]:
                if x.op == "phi":
                    y = q.norm(x)
                    if y.op == "ridx":
                        return K(y.args[2])
    return None


def master(rep, an, q, kf, w, S, N, A):
    A = an.simp(A)
    root = array_root(q, A)
    eff = effects(q, A, root)
    if eff is None or root.op != "fill":
        return rep.unk("master", w)
    rep.verdict(kf.i(root.args[1]) is isum(N, 1) and ring(q, root.args[0]) == {}, "master-length", w, f"master polynomial has {pp(root.args[1], 4)} coefficients starting at {pp(root.args[0], 3)}")
    kinds = [e[0] for e in eff]
    if kinds == ["loop"]:
        rep.fail("master-start", w, "the constant coefficient of the empty product is not set to one")
        lp = eff[0]
    elif kinds == ["store", "loop"]:
        rep.verdict(eff[0][1] is const(0) and ring(q, eff[0][2]) == {(): 1}, "master-start", w, "master polynomial must start as the constant one")
        lp = eff[1]
    else:
        return rep.unk("master", w, str(kinds))
    rep.verdict(count_is(kf, q, lp[2], N, S), "master-loop", w, f"product runs over {pp(lp[2], 4)}, not over all points")
    ko = K_of_header(q, lp[1])
    stores = [(i, e) for i, e in enumerate(lp[3]) if e[0] == "store"]
    loops = [(i, e) for i, e in enumerate(lp[3]) if e[0] == "loop"]
    if len(loops) != 1 or ko is None or any(e[0] == "alt" for e in lp[3]):
        return rep.verdict(False if not loops and all(e[0] == "store" for e in lp[3]) else None, "master-step", w, "coefficients of the product are not all updated")
    li, lo = loops[0]
    if len(lo[3]) != 1 or lo[3][0][0] != "store":
        return rep.unk("master-step", w)
    s = lo[3][0]
    kin = K_of_header(q, lo[1])
    j = kf.i(s[1])
    if kin is None:
        return rep.unk("master-step", w)
    dom = lo[2]
    # inner domain: number of iterations as canonical sum
    if dom is None:
        return rep.unk("master-step", w)
    x = dom
    while x.op in ("rev", "enumerate"):
        x = x.args[0]
    cnt = kf.i(q.nbin("Sub", x.args[1], x.args[0])) if x.op == "ridx" else kf.i(q.nlen(x))
    # highest index written must come first
    down = j is isum(ko, (-1, kin)) or j is isum(ko, 1, (-1, kin))
    rv = kf.ring(s[2])
    rd = {"lo": None, "same": None}
    good = len(rv) == 2
    for m, c in rv.items():
        if len(m) == 1 and m[0].op == "index" and an.simp(m[0].args[0]) is an.simp(s[3]):
            rd["lo"] = (m[0].args[1], c)
        elif len(m) == 2:
            px = [a for a in m if point_of(a, S)]
            pa = [a for a in m if a.op == "index" and an.simp(a.args[0]) is an.simp(s[3])]
            if len(px) == 1 and len(pa) == 1:
                rd["same"] = (pa[0].args[1], c, px[0].args[0].args[1], str(px[0].args[1]))
    if not good or rd["lo"] is None or rd["same"] is None:
        known = all(point_of(a, S) or a.op == "index" and an.simp(a.args[0]) is an.simp(s[3]) for m in rv for a in m)
        rep.verdict(False if len(rv) < 2 or known else None, "master-step", w, f"inner step is {pp(s[2], 8)}")
        return
    rep.verdict(rd["lo"] == (isum(j, -1), 1) and rd["same"][:2] == (j, -1), "master-step", w, f"inner step must be A[j] = A[j-1] - x*A[j], found {pp(s[2], 8)}")
    rep.verdict(rd["same"][2] is ko and rd["same"][3] == "0", "master-point", w, "iteration K of the product must use point K")
    rep.verdict(down, "master-order", w, f"coefficients must be updated from the highest downwards, iteration K writes {pp(j, 5)}")
    top = [e for i, e in stores if kf.i(e[1]) is isum(ko, 1)]
    zero = [(i, e) for i, e in stores if e[1] is const(0)]
    if j is isum(ko, 1, (-1, kin)):
        rep.verdict(cnt is isum(ko, 1), "master-range", w, "inner loop must cover coefficients K+1 down to 1")
        rep.verdict(not any(i < li and kf.i(e[1]) is isum(ko, 1) and ring(q, e[2]) != {} for i, e in stores), "master-lead", w, "the new leading coefficient is not zero before the others are added to it")
    else:
        rep.verdict(cnt is ko, "master-range", w, "inner loop must cover coefficients K down to 1")
        rep.verdict(len(top) == 1 and ring(q, top[0][2]) == {(): 1}, "master-lead", w, "the leading coefficient is not set to one")
    if not zero:
        rep.fail("master-constant", w, "the constant coefficient is not updated")
    elif len(zero) == 1:
        i, e = zero[0]
        r0 = kf.ring(e[2])
        ok = False
        if len(r0) == 1:
            (m, c), = r0.items()
            px = [a for a in m if point_of(a, S)]
            pa = [a for a in m if a.op == "index" and a.args[1] is const(0)]
            ok = c == -1 and len(m) == 2 and len(px) == 1 and len(pa) == 1 and px[0].args[0].args[1] is ko
        rep.verdict(ok, "master-constant", w, f"constant coefficient must become -x*A[0], found {pp(e[2], 6)}")
        rep.verdict(i > li, "master-constant-order", w, "the constant coefficient is overwritten before it is used")


def decode_rou(rep, prog, fn, dec):
    an, q = rep.analyse(prog, fn, opaque=lambda f: dec is not None and f.id == dec.id)
    kf = KForm(q)
    w = fn.path
    S, N, D = [T("arg", i, fn.locals[i][1]) for i in (1, 2, 3)]
    calls = []
    for n in an.exits():
        for _, v in case_list(q, n):
            for x in find(q, v, lambda x: nm(x) == "reed_solomon_erasure_decode"):
                if x not in [c for c, _ in calls]:
                    calls.append((x, n))
    if not calls:
        an, q = rep.analyse(prog, fn)
        oks = [n for n in an.exits() if n.exit.op == "agg" and n.exit.args[1] == "Ok"]
        tg = oks
    else:
        tg = [n for _, n in calls]
    lt, anyb = None, False
    empty = None
    for g in an.guards(tg):
        p = q.accept(g)
        if p[0] in NEG:
            o, a, b = p
            if an.depends(a, lambda t: t is D) and not an.depends(b, lambda t: t is D):
                o, a, b = FLIP[o], b, a
            if an.depends(b, lambda t: t is D) and an.depends(a, lambda t: t is S) and not an.depends(a, lambda t: t is D):
                anyb = True
                part = find(q, a, lambda t: t.op == "field" and str(t.args[1]) in ("0", "1") and t.args[0].op != "as")
                good = (o == "Lt" and (nm(b) == "size" or (b.op == "len"))) and g.must and a.op not in ("bin", "un", "cast")
                allsh = None
                mk = find(q, a, lambda t: t.op in ("max_by_key", "max", "min_by_key", "min"))
                el = find(q, a, lambda t: t.op == "elem")
                if good and all(str(t.args[1]) == "0" for t in part):
                    base = [x.args[0] for x in mk + el if isinstance(x.args[0], Term)]
                    if any(t.op in ("min_by_key", "min") for t in mk):
                        lt = lt or False
                    elif any(b2.op in ("skip", "take", "slice") for b2 in base):
                        lt = lt or False
                    else:
                        lt = True
                elif lt is None:
                    lt = False
        if p[0] == "is" and (p[1].op in ("max_by_key", "max") or nm(p[1]) in ("max", "max_by", "max_by_key")):
            empty = g.must and p[2] == frozenset({"Some"})
        if p[0] in NEG and any(x is q.nlen(S) for x in p[1:]):
            r, _ = guard_grid(q, p, lambda a: "s" if a is q.nlen(S) else None, lambda e: e["s"] > 0, {"s": range(0, 9)})
            if r:
                empty = g.must
        if p[0] in ("true", "false") and nm(p[1]) == "is_empty":
            empty = empty or (p[0] == "false" and g.must)
    rep.verdict(lt if anyb else False, "index-in-domain", w, "share indices outside the domain are not rejected on every path")
    if empty is None and not any(an.depends(g.cond, lambda t: t.op == "len" or t.op in ("max", "max_by_key")) and g.cond.op == "disc" for g in an.guards(tg)):
        empty = False
    rep.verdict(empty, "empty-shares", w, "empty shares are not rejected")
    for c, n in calls:
        sh, ds = q.norm(c.args[2]), q.norm(c.args[3])
        rep.verdict(ds is N, "data-size", w, f"decodes {pp(ds, 3)} elements instead of the requested size")
        if sh.op == "map" and sh.args[1].op == "agg" and len(sh.args[1].args) == 5:
            rep.verdict(True if sh.args[0] is S else (False if sh.args[0].op in ("skip", "take", "slice", "rev") and sh.args[0].op != "rev" else None), "shares-used", w, f"shares decoded are {pp(sh.args[0], 3)}")
            k = T("K", sh.args[2])
            a, b = kf(sh.args[1].args[3]), kf(sh.args[1].args[4])
            me = T("index", S, k)
            part = lambda t: t.op == "field" and t.args[0] is me
            rep.verdict(part(b) and str(b.args[1]) == "1" if part(b) else None, "evaluation", w, "evaluation must be the second part of the share")
            if a.op == "index" and nm(a.args[0]) == "elements":
                i = a.args[1]
                rep.verdict(True if part(i) and str(i.args[1]) == "0" else False, "domain-point", w, f"share index maps to domain element {pp(i, 4)}")
            elif nm(a) == "element":
                i = a.args[3]
                rep.verdict(True if part(i) and str(i.args[1]) == "0" else False, "domain-point", w, f"share index maps to domain element {pp(i, 4)}")
            elif a.op == "field" and a.args[0].op == "as" and nm(a.args[0].args[0]) == "nth":
                i = a.args[0].args[0].args[-1]
                rep.verdict(True if part(i) and str(i.args[1]) == "0" else False, "domain-point", w, f"share index maps to domain element {pp(i, 4)}")
            else:
                rep.unk("domain-point", w, pp(a, 4))
        else:
            rep.unk("shares-used", w, pp(sh, 4))
