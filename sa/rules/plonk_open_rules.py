"""L05: how PLONK combines openings, and the equation they are checked with."""
from common import *
from algebra import *
from core import check
from plonk_eq_rules import always

C = "jf_plonk"
OPEN = ["range", "key", "h1", "q_lookup", "tsep", "qsep"]
SHIFTED = ["lprod", "range", "key", "h1", "h2", "q_lookup", "w3", "w4", "tsep"]
# what a name ends with -> symbol
COMM = [("wires_poly_comms_vec[n][m]", "wire"), ("sigma_comms[m]", "sigma"), ("prod_perm_poly_comms_vec[n]", "perm"), (".range_table_comm", "range"), (".key_table_comm", "key"),
        (".h_poly_comms[0]", "h1"), (".h_poly_comms[1]", "h2"), (".selector_comms[-1]", "q_lookup"), (".table_dom_sep_comm", "tsep"), (".q_dom_sep_comm", "qsep"),
        (".prod_lookup_poly_comm", "lprod"), ("wires_poly_comms_vec[n][3]", "w3"), ("wires_poly_comms_vec[n][4]", "w4")]
EVAL = [(".wires_evals[m]", "wire"), (".wire_sigma_evals[m]", "sigma"), (".perm_next_eval", "perm"), (".range_table_eval", "range"), (".range_table_next_eval", "range"), (".key_table_eval", "key"),
        (".key_table_next_eval", "key"), (".h_1_eval", "h1"), (".h_1_next_eval", "h1"), (".h_2_next_eval", "h2"), (".q_lookup_eval", "q_lookup"), (".q_lookup_next_eval", "q_lookup"),
        (".table_dom_sep_eval", "tsep"), (".table_dom_sep_next_eval", "tsep"), (".q_dom_sep_eval", "qsep"), (".prod_next_eval", "lprod"), (".w_3_next_eval", "w3"), (".w_4_next_eval", "w4")]
POLY = [("lin", "lin"), (".wire_polys[m]", "wire"), (".sigmas[m]", "sigma"), (".prod_perm_poly", "perm"), (".range_table_poly", "range"), (".key_table_poly", "key"), (".h_polys[0]", "h1"),
        (".h_polys[1]", "h2"), (".selectors[-1]", "q_lookup"), (".table_dom_sep_poly", "tsep"), (".q_dom_sep_poly", "qsep"), (".prod_lookup_poly", "lprod"), (".wire_polys[3]", "w3"),
        (".wire_polys[4]", "w4")]


def history(q, t, step):
    """items a value was built from, in order; step(t) -> (item, previous value) or None"""
    out, seen, bad = [], set(), []

    def go(t, depth=0):
        t = q.an.simp(t)
        if t in seen or depth > 200:
            return
        seen.add(t)
        s = step(t)
        if s is not None:
            go(s[1], depth + 1)
            out.append(s[0])
        elif t.op == "phi":
            body = q.an.loops().get(t.args[0], ((), ()))[0]
            for p, x in sorted(q.an.phis.get(t, {}).items(), key=lambda i: i[0] in body):
                if x.op != "undef":
                    go(x, depth + 1)
        elif t.op == "agg" and t.args[1] in ("Ok", "Some"):
            go(payload(t), depth + 1)
        else:
            bad.append(t)
    go(t)
    return out, bad


class Nodes(dict):
    """node of a call: by its term, else by the state it was given"""
    def __init__(self, an):
        super().__init__()
        self.an = an
        for e in an.events:
            if e.args:
                self.setdefault((e.path.split("::")[-1], an.simp(e.args[0])), e.node.id)
            if e.ret is not None and e.ret.op == "call":
                self[e.ret] = e.node.id
                self[an.simp(e.ret)] = e.node.id

    def __missing__(self, c):
        if isinstance(c, Term):
            k = (c.args[0].split("::")[-1], c.args[2])
            if k in self:
                return self[k]
            n = [x for k2, x in self.items() if isinstance(k2, tuple) and k2[0] == k[0]]
            if len(set(n)) == 1 or n and not any(x in b for x in n for b, _ in self.an.loops().values()):
                return n[0]
        raise Unknown("a call that was not found again")


def lettered(al, an, nid):
    loops = sorted([(len(b), h) for h, (b, l) in an.loops().items() if nid in b], reverse=True)
    al.sites, al.memo = {}, {}
    for (_, h), letter in zip(loops, ["n", "m"]):
        for s in al.site(h):
            al.sites[s] = letter


def symbols(q, al, t, table):
    """symbols of an element, or of all elements when it goes through a literal list"""
    t = q.norm(t)
    while t.op == "field" and str(t.args[1]) == "0" and q.norm(t.args[0]).op != "as":
        t = q.norm(t.args[0])
    if t.op in ("elem", "index"):
        xs = array_of(q.norm(t.args[0]))
        if xs is not None and not is_int_const(q.norm(t.args[1]) if isinstance(t.args[1], Term) else const(0) if False else t):
            return [y for x in xs for y in symbols(q, al, x, table)]
    n = al.name(t)
    for suffix, s in table:
        if n == suffix or n.endswith(suffix):
            return [s]
    raise Unknown(f"unexpected {n}")


def ordered(rep, prog):
    """commitments and evaluations of the verifier and polynomials of the prover are combined in the same order"""
    orders = {}
    fn = rep.anchor(prog, C, "aggregate_poly_commitments", "Verifier")
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in ("add_poly_comm", "linearization_scalars_and_bases"))
        al = Alg(q, {i + 1: n for i, n in enumerate("self vks ch zh l1 ln pf ap ab".split())})
        node = Nodes(an)

        def step(t):
            if t.op == "out" and iscall(t.args[0], "add_poly_comm") and t.args[1] == 0:
                return t.args[0], t.args[0].args[2]
            return None
        vs = [q.norm(v) for _, v in returned(q, ok_exits(an))]
        if len(vs) == 1 and vs[0].op == "agg" and vs[0].args[0] == "tuple":
            calls, rest = history(q, vs[0].args[3], step)
            rep.verdict(bool(rest) and all(iscall(okof(x) or x, "linearization_scalars_and_bases") for x in rest) or None, "combine-linear", fn.path, "the combined commitment does not start with the linearisation")
            verifier_side(rep, prog, fn, an, q, al, node, calls, vs[0].args[4], orders)
        else:
            rep.verdict(None, "combine-order", fn.path, "result")
    fn = rep.anchor(prog, C, "aggregate_evaluations", "Verifier")
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "add_pcs_eval")
        al = Alg(q, {1: "lin", 2: "evals", 3: "lkup", 4: "buf"})
        node = Nodes(an)

        def step(t):
            if t.op == "out" and iscall(t.args[0], "add_pcs_eval") and t.args[1] == 0:
                return t.args[0], t.args[0].args[2]
            return None
        vs = [v for _, v in returned(q, ok_exits(an))]
        calls, rest = history(q, vs[0], step) if len(vs) == 1 else ([], [])
        try:
            if calls:
                sy = []
                for c in calls:
                    lettered(al, an, node[c])
                    sy += symbols(q, al, c.args[4], EVAL)
                    cm = q.norm(c.args[3])
                    rep.verdict(True if cm.op == "elem" and q.norm(cm.args[0]) is arg(fn, 4) else None, "combine-factor", f"{fn.path} {sy[-1]}", f"the factor is not the next of the commitments' factors: {show(cm)}")
                    if sy[-1] in ("wire", "sigma", "perm"):
                        rep.verdict(always(an, q, node[c]), "combine-always", f"{fn.path} {sy[-1]}", "an evaluation is left out in some cases")
                    full(rep, an, q, fn, node[c], sy[-1])
                orders["evaluations"] = (fn.path, sy)
                buf = arg(fn, 4)
                used = [x.args[1] for x in (q.norm(c.args[3]) for c in calls) if x.op == "elem" and q.norm(x.args[0]) is buf]
                if len(used) == len(calls):
                    taken = {k for k, it in an.draws.items() if q.norm(it) is buf}
                    rep.verdict(taken == set(used) and len(set(used)) == len(used), "combine-factor", fn.path, "every factor that is taken is used, once")
                al.sites, al.memo = {}, {}
                p = [al.poly(x) for x in rest]
                rep.verdict(p == [formula("0 - lin")], "combine-linear", fn.path, f"the combined evaluation starts with {'; '.join(map(ptext, p))}, not with minus the constant term")
            else:
                rep.verdict(None, "combine-order", fn.path, "evaluations")
        except Unknown as e:
            rep.verdict(None, "combine-order", fn.path, str(e))
    helpers(rep, prog)
    prover(rep, prog, orders)
    total = {k: v for k, v in orders.items() if k in ("commitments", "evaluations")}
    want = ["wire", "sigma", "perm"] + OPEN + SHIFTED
    for k, (w, sy) in total.items():
        rep.verdict(sorted(sy) == sorted(want), "combine-all", w, f"combined {k}: {sy}, expected each of {want}")
    if len(total) == 2:
        a, b = total["commitments"][1], total["evaluations"][1]
        rep.verdict(a == b, "combine-order", total["evaluations"][0], f"commitments are combined in the order {a}, evaluations in the order {b}")
    for k in ("zeta", "next"):
        v, p = orders.get("verifier-" + k), orders.get("prover-" + k)
        if v and p:
            want = ["wire", "sigma"] + OPEN if k == "zeta" else ["perm"] + SHIFTED
            rep.verdict(sorted(v[1]) == sorted(want), "combine-point", f"{v[0]} {k}", f"opened at {k}: {v[1]}, expected {want}")
            rep.verdict(v[1] == p[1], "combine-order", f"{p[0]} {k}", f"the prover combines {p[1]}, the verifier {v[1]}")


def full(rep, an, q, fn, nid, sym):
    """the loop around a combination goes over everything (the last permutation polynomial is left out)"""
    loops = sorted([(len(b), h) for h, (b, l) in an.loops().items() if nid in b])
    if not loops or len(loops) < 2:
        return
    d = q.norm(q.loop_domain(loops[0][1])) if q.loop_domain(loops[0][1]) is not None else None
    if d is None or array_of(d) is not None:
        return
    if sym == "sigma" and d.op == "take":
        n = q.norm(d.args[1])
        ok = n.op == "bin" and n.args[0] == "Sub" and is_const(n.args[2], 1) and n.args[1].op == "len"
        rep.verdict(True if ok else None, "combine-whole", f"{fn.path} {sym}", f"combined for {show(d)}")
    else:
        v = False if d.op in ("skip", "take", "rev", "stepby") else True if d.op in ("field", "index", "elem") else None
        rep.verdict(v, "combine-whole", f"{fn.path} {sym}", f"combined only for {show(d)}")


def verifier_side(rep, prog, fn, an, q, al, node, calls, buf, orders):
    groups = {"zeta": [], "next": []}
    sy, ok = [], True
    try:
        for c in calls:
            lettered(al, an, node[c])
            s = symbols(q, al, c.args[4], COMM)
            sy += s
            full(rep, an, q, fn, node[c], s[0])
            if s[0] in ("wire", "sigma", "perm") and len(s) == 1:
                rep.verdict(always(an, q, node[c]), "combine-always", f"{fn.path} {s[0]}", "a commitment is left out in some cases")

            def step(t):
                if t.op == "out" and iscall(t.args[0], "add_poly_comm") and t.args[1] == 1:
                    return t.args[0], t.args[0].args[3]
                return None
            before, roots = history(q, c.args[3], step)
            al.sites, al.memo = {}, {}
            names = {ptext(al.poly(x)) for x in roots}
            g = "zeta" if names == {"ch.v"} else "next" if names == {"ch.u"} else None
            rep.verdict(g is not None, "combine-factor", f"{fn.path} {s[0]}{'…' if len(s) > 1 else ''}", f"the factors start with {sorted(names)}")
            if g:
                groups[g] += s
            rep.verdict(ptext(al.poly(c.args[5])) == "ch.v", "combine-power", f"{fn.path} {s[0]}{'…' if len(s) > 1 else ''}", f"the next factor is multiplied by {show(c.args[5])}")
        orders["commitments"] = (fn.path, sy)
        orders["verifier-zeta"] = (fn.path, groups["zeta"])
        orders["verifier-next"] = (fn.path, groups["next"])
        fs, rest = history(q, buf, lambda t: (t.args[1], t.args[0]) if t.op == "push" else None)
        same = [q.norm(x) for x in fs] == [q.norm(c.args[3]) for c in calls]
        rep.verdict(same, "combine-buffer", fn.path, f"the factors handed on are {[show(x) for x in fs]}, those used are {[show(c.args[3]) for c in calls]}")
    except Unknown as e:
        rep.verdict(None, "combine-order", fn.path, str(e))


def helpers(rep, prog):
    fn = rep.anchor(prog, C, "add_poly_comm", "Verifier", optional=True) if False else (prog.find(C, "add_poly_comm", "Verifier") or [None])[0]
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "push")
        al = Alg(q, {1: "sb", 2: "r", 3: "c", 4: "v"})
        for n in an.exits():
            is_formula(rep, al, "combine-step", fn.path, final(n, 2), "r*v", "the next factor")
            t = final(n, 1)
            c = t.args[0] if t.op == "out" else None
            if c is None or not iscall(c, "push"):
                rep.verdict(None if c is not None else False, "combine-step", fn.path + " push", "the commitment is not added")
            else:
                is_formula(rep, al, "combine-step", fn.path + " push", c.args[3], "r", "the factor of the commitment")
                rep.verdict(q.norm(c.args[4]) is arg(fn, 3), "combine-step", fn.path + " base", f"another point is added: {show(c.args[4])}")
    fn = (prog.find(C, "add_pcs_eval", "Verifier") or [None])[0]
    if fn:
        an, q = rep.analyse(prog, fn)
        al = Alg(q, {1: "s", 2: "r", 3: "e"})
        for n in an.exits():
            is_formula(rep, al, "combine-step", fn.path, final(n, 1), "s + e*r", "the combined evaluation")


def prover(rep, prog, orders):
    fn = rep.anchor(prog, C, "compute_opening_proofs", "Prover")
    bw = rep.anchor(prog, C, "compute_batched_witness_polynomial_commitment", "Prover")
    if bw:
        an, q = rep.analyse(prog, bw, opaque=lambda g: g.name in ("mul_poly", "commit"))
        al = Alg(q, {1: "ck", 2: "ps", 3: "r", 4: "x"})
        cs = [e.ret for e in an.events if e.ret is not None and iscall(e.ret, "commit")]
        if len(cs) == 1:
            t = q.norm(cs[0].args[3])
            rep.verdict(q.norm(cs[0].args[2]) is arg(bw, 1), "open-key", bw.path, "committed with another key")
            if t.op == "bin" and t.args[0] == "Div":
                is_formula(rep, al, "open-batch", bw.path, t.args[1], "sum('ps', ps[i]*run('ps', r))", "the combined polynomial", ["sum('ps', ps[i]*r**i)"])
                d = q.norm(t.args[2])
                xs = array_of(q.norm(d.args[2])) if iscall(d, "from_coefficients_vec", "from_coefficients_slice") else None
                if xs is None or len(xs) != 2:
                    rep.verdict(None, "open-divisor", bw.path, show(d))
                else:
                    is_formula(rep, al, "open-divisor", bw.path + " 0", xs[0], "0 - x", "the divisor")
                    is_formula(rep, al, "open-divisor", bw.path + " 1", xs[1], "1", "the divisor")
            else:
                rep.verdict(None, "open-batch", bw.path, show(t))
        else:
            rep.verdict(None, "open-batch", bw.path, f"{len(cs)} commitments")
    if not fn:
        return
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "compute_batched_witness_polynomial_commitment")
    al = Alg(q, {i + 1: n for i, n in enumerate("self ck pks zeta v or_ lin".split())})
    vs = [q.norm(v) for _, v in returned(q, ok_exits(an))]
    if len(vs) != 1 or vs[0].op != "agg" or vs[0].args[0] != "tuple":
        rep.verdict(None, "open-proofs", fn.path, "result")
        return
    for k, x, want in zip(("zeta", "next"), vs[0].args[3:5], ("zeta", "zeta*self.domain.group_gen")):
        c = okof(q.norm(x)) or q.norm(x)
        if not iscall(c, "compute_batched_witness_polynomial_commitment"):
            rep.verdict(None, "open-proofs", f"{fn.path} {k}", show(c))
            continue
        is_formula(rep, al, "open-point", f"{fn.path} {k}", c.args[5], want, "the point of the opening")
        is_formula(rep, al, "open-factor", f"{fn.path} {k}", c.args[4], "v", "the factor between the polynomials")
        rep.verdict(q.norm(c.args[2]) is arg(fn, 2), "open-key", f"{fn.path} {k}", "opened with another key")

        def step(t):
            if t.op == "push":
                return t.args[1], t.args[0]
            if t.op == "ext":
                return T("many", t.args[1]), t.args[0]
            return None
        its, rest = history(q, c.args[3], step)
        try:
            sy = []
            al.memo = {}
            al.sites = {}
            # elements of inner loops are "m", those of the loop over the instances "n"
            for h, (b, l) in an.loops().items():
                inner = any(b < b2 for h2, (b2, _) in an.loops().items() if h2 != h)
                for s in al.site(h):
                    al.sites[s] = "m" if inner else "n"
            for r in rest:
                xs = array_of(r)
                if xs is None:
                    if iscall(r, "new", "with_capacity"):
                        continue
                    raise Unknown("starts with " + show(r))
                sy += [s for x2 in xs for s in symbols(q, al, x2, POLY)]
            for it in its:
                if it.op == "many":
                    xs = array_of(q.norm(okof(q.norm(it.args[0])) or it.args[0]))
                    if xs is None:
                        raise Unknown("a list " + show(it.args[0]))
                    sy += [s for x2 in xs for s in symbols(q, al, x2, POLY)]
                else:
                    sy += symbols(q, al, it, POLY)
            if k == "zeta":
                rep.verdict(sy[:1] == ["lin"], "open-linear", fn.path, f"the linearisation polynomial does not come first: {sy}")
                sy = sy[1:]
            orders["prover-" + k] = (fn.path, sy)
        except Unknown as e:
            rep.verdict(None, "combine-order", f"{fn.path} {k}", str(e))
    for h, (b, l) in an.loops().items():
        d = q.loop_domain(h)
        d = q.norm(d) if d is not None else None
        if d is not None and d.op in ("take", "skip", "rev", "stepby"):
            n = q.norm(d.args[1]) if len(d.args) > 1 and isinstance(d.args[1], Term) else None
            sig = d.op == "take" and n is not None and n.op == "bin" and n.args[0] == "Sub" and is_const(n.args[2], 1) and n.args[1].op == "len" and pp(q.norm(d.args[0]), 6).endswith(".sigmas")
            rep.verdict(True if sig else False, "open-whole", f"{fn.path} {d.op}", f"only part of a list is opened: {show(d)}")


# ---------------------------------------------------------------- the equation
def pushes(q, al, t, names):
    """{base: factor} of a list of points and factors; merged lists under the name of the list"""
    def step(t):
        if t.op == "out" and t.args[1] == 0 and iscall(t.args[0], "push", "merge"):
            return t.args[0], t.args[0].args[2]
        return None
    calls, rest = history(q, t, step)
    out = {}
    for x in rest:
        if iscall(x, "new") or x.op == "agg":
            continue
        out.setdefault(al.name(x), []).append(formula("1"))
    node = Nodes(q.an)
    for c in calls:
        if q.an.loops():
            lettered(al, q.an, node[c])
        if callname(c) == "push":
            out.setdefault(al.name(c.args[4]), []).append(al.poly(c.args[3]))
        else:
            out.setdefault(al.name(c.args[4]), []).append(al.poly(c.args[3]))
    return out, calls


def compare(rep, facet, w, got, want):
    for b, ps in want.items():
        g = got.get(b)
        fs = [formula(x) for x in ps]
        rep.verdict(g is not None and len(g) == 1 and g[0] in fs, facet, f"{w} {b}", f"factor {' and '.join(map(ptext, g)) if g else 'missing'}, expected {ptext(fs[0])}")
    rep.verdict(not set(got) - set(want), facet, f"{w} nothing else", f"unexpected {sorted(set(got) - set(want))}")


def sums(q, t):
    """argument of the multi-scalar multiplication behind a point, and its sign"""
    t, s = q.norm(t), 1
    while True:
        if t.op == "un" and t.args[0] == "Neg":
            t, s = q.norm(t.args[1]), -s
        elif t.op in ("conv", "cast"):
            t = q.norm(t.args[0])
        elif iscall(t, "into_affine", "into") and len(t.args) == 3:
            t = q.norm(t.args[2])
        else:
            return t, s


def paired(rep, q, an, w, fn):
    """[(G1 term, sign, G2 name)] of the product the result is compared with one; None when that is not what is returned"""
    vs = [q.norm(v) for _, v in returned(q, ok_exits(an))]
    if len(vs) != 1:
        return None
    pr = pairing_parts(q, vs[0])
    return pr


def equation(rep, prog):
    fn = rep.anchor(prog, C, "batch_verify_opening_proofs", "Verifier")
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in ("push", "merge", "multi_scalar_mul") and "ScalarsAndBases" in g.path or g.name in ("append_field_elem", "get_challenge"))
        al = Alg(q, {1: "ok", 2: "in_"}, lambda a, t: challenge(a, t))
        pr = g2(q, al, an, fn, rep)
        if pr is not None:
            r = "either(1, chal())"
            pw = "run('in_', either(1, chal()))"
            for t, s, n in pr:
                t2, s2 = sums(q, t)
                if not iscall(t2, "multi_scalar_mul"):
                    rep.verdict(None, "equation", f"{fn.path} {n}", show(t2))
                    continue
                try:
                    got, calls = pushes(q, al, t2.args[2], None)
                except Unknown as e:
                    rep.verdict(None, "equation", f"{fn.path} {n}", str(e))
                    continue
                if n == "ok.beta_h":
                    sign = s * s2
                    compare(rep, "equation-left", fn.path, got, {"in_[n].opening_proof": [pw], "in_[n].shifted_opening_proof": [pw + "*in_[n].u"]})
                else:
                    rep.verdict(s * s2 == -sign if "sign" in dir() else None, "equation-sign", fn.path, "the two sides of the equation are added")
                    compare(rep, "equation-right", fn.path, got, {"in_[n].comm_scalars_and_bases": [pw], "in_[n].opening_proof": [pw + "*in_[n].eval_point"],
                                                                  "in_[n].shifted_opening_proof": [pw + "*in_[n].u*in_[n].next_eval_point"],
                                                                  "ok.g": [f"0 - sum('in_', {pw}*in_[i].eval)"]})
        batch_challenge(rep, prog, fn, an, q)
    fn = rep.anchor(prog, C, "decide", "BatchArgument")
    if fn:
        an, q = rep.analyse(prog, fn)
        al = Alg(q, {1: "ok", 2: "a", 3: "b"})
        pr = g2(q, al, an, fn, rep)
        if pr is not None:
            d = {}
            for t, s, n in pr:
                t2, s2 = sums(q, t)
                d[n] = (s * s2, al.names.get(t2))
            ok = {n: x[1] for n, x in d.items()} == {"ok.beta_h": "a", "ok.h": "b"} and d["ok.beta_h"][0] == -d["ok.h"][0]
            rep.verdict(ok, "decide", fn.path, f"the final pairing check is over {d}")
    fn = rep.anchor(prog, C, "partial_verify", "BatchArgument")
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in ("push", "merge", "multi_scalar_mul") and "ScalarsAndBases" in g.path or g.name == "prepare_pcs_info")

        def info(al, t):
            c = okof(t)
            return "in_" if c is not None and iscall(c, "prepare_pcs_info") else None
        al = Alg(q, {1: "bg", 2: "g", 3: "vks", 4: "pi", 5: "pf", 6: "z"}, info)
        vs = [q.norm(v) for _, v in returned(q, ok_exits(an))]
        if len(vs) == 1 and vs[0].op == "agg" and vs[0].args[0] == "tuple":
            wants = [{"in_.opening_proof": ["1"], "in_.shifted_opening_proof": ["in_.u"], "g": ["z"]},
                     {"in_.comm_scalars_and_bases": ["1"], "in_.opening_proof": ["in_.eval_point"], "in_.shifted_opening_proof": ["in_.u*in_.next_eval_point"], "g": ["0 - in_.eval"], "bg": ["z"]}]
            for k, (t, want) in enumerate(zip(vs[0].args[3:5], wants)):
                t, s = sums(q, t)
                try:
                    if not iscall(t, "multi_scalar_mul") or s != 1:
                        raise Unknown(show(t))
                    got, _ = pushes(q, al, t.args[2], None)
                except Unknown as e:
                    rep.verdict(None, "partial", f"{fn.path} {k + 1}", str(e))
                    continue
                compare(rep, f"partial-{k + 1}", fn.path, got, want)
        else:
            rep.verdict(None, "partial", fn.path, "result")


def challenge(al, t):
    c = okof(t)
    if c is not None and iscall(c, "get_challenge") or t.op == "call" and iscall(t, "get_challenge"):
        return "chal()"
    return None


def g2(q, al, an, fn, rep):
    vs = [q.norm(v) for _, v in returned(q, ok_exits(an))]
    pr = None
    if len(vs) == 1:
        v = vs[0]
        sides = list(v.args[1:]) if v.op == "bin" and v.args[0] == "Eq" else list(v.args[2:4]) if iscall(v, "eq") else []
        one = [x for x in sides if ring(q, x) == {(): 1}]
        other = [x for x in sides if x not in one]
        if len(one) == 1 and len(other) == 1:
            x = q.norm(other[0])
            while x.op == "field":
                x = q.norm(x.args[0])
            if iscall(x, "multi_pairing", "pairing"):
                ls = []
                for side in x.args[2:4]:
                    ps = q.seq(side)
                    side = q.norm(side)
                    xs = listing(q, side)
                    ls.append(xs)
                if None not in ls and len(ls) == 2 and len(ls[0]) == len(ls[1]):
                    try:
                        pr = [(a, 1, al.name(sums(q, b)[0])) for a, b in zip(*ls)]
                    except Unknown:
                        pr = None
    if pr is not None:
        pr.sort(key=lambda x: x[2] != "ok.beta_h")
        names = [x[2] for x in pr]
        if not rep.verdict(names == ["ok.beta_h", "ok.h"], "equation-points", fn.path, f"paired with {names}, expected the two points of the key"):
            return None
        return pr
    rep.verdict(None, "equation-points", fn.path, "the result is not a product of pairings compared with one")
    return None


def listing(q, t, depth=0):
    """elements of a short list, projected out of zips"""
    t = q.norm(t)
    if depth > 6:
        return None
    xs = array_of(t)
    if xs is not None:
        return list(xs)
    if t.op == "push":
        a = listing(q, t.args[0], depth + 1)
        return None if a is None else a + [t.args[1]]
    if t.op == "map":
        b = q.norm(t.args[1])
        while b.op in ("conv", "cast"):
            b = q.norm(b.args[0])
        if b.op == "elem" and b.args[1] == t.args[2]:
            return listing(q, b.args[0], depth + 1)
    return None


def batch_challenge(rep, prog, fn, an, q):
    """the factor between several openings depends on the challenge of each of them"""
    chal = [e.ret for e in an.events if e.ret is not None and iscall(e.ret, "get_challenge")]
    if not chal:
        rep.verdict(False, "batch-challenge", fn.path, "several openings are combined without a challenge")
        return
    for c in chal:
        def step(t):
            if t.op == "out" and t.args[1] == 0 and iscall(t.args[0], "append_field_elem"):
                return t.args[0], t.args[0].args[2]
            return None
        calls, rest = history(q, c.args[2], step)
        ok = None if any(x.op == "elem" for a in calls for x in q.an.subterms(a.args[-1], through_phi=False)) else False
        for a in calls:
            x = q.norm(a.args[-1])
            if x.op == "field" and x.args[1] == "u" and q.norm(x.args[0]).op == "elem" and q.norm(q.norm(x.args[0]).args[0]) is arg(fn, 2):
                ok = True
        rep.verdict(ok if calls else False, "batch-challenge", fn.path, "the factor between several openings does not depend on all of them")
        # left out only for a single opening
        for ph, ins in an.phis.items():
            if ph.args[0] in an.loops() or not any(okof(q.norm(v)) is c or q.norm(v) is c for v in ins.values()):
                continue
            for p, v in ins.items():
                if p < 0 or v.op == "undef" or okof(q.norm(v)) is c or q.norm(v) is c:
                    continue
                one = None
                for t, lab in q.node_conds(p):
                    t, lab = q.norm(t), str(lab)
                    if t.op == "bin" and t.args[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        op, a, b = t.args[0], q.norm(t.args[1]), q.norm(t.args[2])
                        if is_int_const(a):
                            op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a
                        if lab in ("0", "False"):
                            op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op]
                        if is_int_const(b) and a.op == "len" and q.norm(a.args[0]) is arg(fn, 2):
                            k = int(b.args[0])
                            one = op == "Eq" and k <= 1 or op == "Lt" and k <= 2 or op == "Le" and k <= 1
                rep.verdict(one, "batch-single", fn.path, "the challenge is left out for more than one opening")


def info(rep, prog):
    fn = rep.anchor(prog, C, "prepare_pcs_info", "Verifier")
    if not fn:
        return
    leaf = {"aggregate_poly_commitments", "aggregate_evaluations", "compute_lin_poly_constant_term", "compute_challenges", "evaluate_vanishing_poly", "first_and_last_lagrange_coeffs"}
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in leaf)

    def names(al, t):
        c = okof(t)
        if c is not None:
            for n, s in (("compute_challenges", "ch"), ("compute_lin_poly_constant_term", "constant"), ("aggregate_evaluations", "eval"), ("aggregate_poly_commitments", "comm")):
                if iscall(c, n):
                    return s
        return None
    al = Alg(q, {1: "self", 2: "vks", 3: "pis", 4: "pf", 5: "msg"}, names)
    vs = [q.norm(v) for _, v in returned(q, ok_exits(an))]
    if len(vs) != 1 or vs[0].op != "agg":
        rep.verdict(None, "info", fn.path, "result")
        return
    for name, want in (("u", "ch.u"), ("eval_point", "ch.zeta"), ("next_eval_point", "ch.zeta*self.domain.group_gen"), ("eval", "eval"), ("opening_proof", "pf.opening_proof"),
                       ("shifted_opening_proof", "pf.shifted_opening_proof"), ("comm_scalars_and_bases", "comm")):
        is_formula(rep, al, "info", f"{fn.path} {name}", f(vs[0], name), want, f"what is checked: {name}")
    L = "first_and_last_lagrange_coeffs(self.domain,ch.zeta)"
    roles = {"compute_lin_poly_constant_term": {2: "self", 3: "ch", 4: "vks", 5: "pis", 6: "pf", 7: L, 8: L + ".1"},
             "aggregate_poly_commitments": {2: "self", 3: "vks", 4: "ch", 5: "evaluate_vanishing_poly(self,ch.zeta)", 6: L, 7: L + ".1", 8: "pf"},
             "aggregate_evaluations": {2: "constant", 3: "pf.poly_evals_vec", 4: "pf.plookup_proofs_vec", 5: "comm.1"}}
    powers, bases = {}, {}
    for e in an.events:
        cn = e.name.split("::")[-1]
        if cn not in roles:
            continue
        for i, want in roles[cn].items():
            try:
                got = al.name(e.args[i - 2])
            except Unknown as ex:
                rep.verdict(None, "info-arguments", f"{fn.path} {cn} {i - 2}", str(ex))
                continue
            rep.verdict(got == want, "info-arguments", f"{fn.path} {cn} {i - 2}", f"called with {got}, expected {want}")
        if cn != "aggregate_evaluations":
            powers[cn], bases[cn] = e.args[7], e.args[8]
    for n, t in powers.items():
        xs = array_of(q.norm(t))
        if xs is None or len(xs) < 5:
            rep.verdict(None if xs is None else False, "alpha-powers", f"{fn.path} {n}", show(t))
            continue
        for k in range(5):
            is_formula(rep, al, "alpha-powers", f"{fn.path} {n} {k}", xs[k], f"ch.alpha**{k + 2}", "the powers that separate the constraints")
    rep.verdict(len({q.norm(t) for t in bases.values()}) == 1 if len(bases) == 2 else None, "alpha-bases", fn.path + " same", "constant term and commitments are combined with different factors per instance")
    for n, t in list(bases.items())[:1]:
        its, rest = history(q, t, lambda t: (t.args[1], t.args[0]) if t.op == "push" else None)
        try:
            first = [array_of(r) for r in rest]
            if len(first) != 1 or first[0] is None or len(first[0]) != 1 or len(its) != 1:
                raise Unknown(show(t))
            is_formula(rep, al, "alpha-bases", fn.path + " first", first[0][0], "1", "the factor of the first instance")
            rc = recur(q, its[0]) if its[0].op == "phi" else None
            if rc is None:
                raise Unknown(show(its[0]))
            two = "either(ch.alpha**3, ch.alpha**7)"
            is_formula(rep, al, "alpha-bases", fn.path + " second", rc[0], two, "the factor of the second instance")
            st = ring(q, rc[1])
            fs = [[x for x in m if x is not its[0]] for m, c in st.items() if c == 1]
            v = len(st) == 1 and len(fs) == 1 and len(fs[0]) == 1
            if v:
                x = q.norm(fs[0][0])
                v = is_const(x.args[1], 1) if x.op == "index" and x.args[0].op in ("push", "phi") else al.poly(x) == formula(two)
            rep.verdict(v, "alpha-bases", fn.path + " next", f"the factor of the next instance is {show(rc[1])}")
        except Unknown as ex:
            rep.verdict(None, "alpha-bases", fn.path, str(ex))


def containers(rep, prog):
    fn = rep.anchor(prog, C, "push", "ScalarsAndBases")
    if fn:
        an, q = rep.analyse(prog, fn)
        v = None
        for n in an.exits():
            t = final(n, 1)
            if t.op == "store":
                p = ring(q, t.args[2])
                sc = [m for m, c in p.items() if m == (arg(fn, 2),) and c == 1]
                old = [m for m, c in p.items() if c == 1 and len(m) == 1 and m != (arg(fn, 2),)]
                ent = [e for e in an.events if e.name.endswith("::entry")]
                v = len(p) == 2 and len(sc) == 1 and len(old) == 1 and all(q.norm(e.ret.args[3] if e.ret.op == "call" else e.args[1]) is arg(fn, 3) for e in ent if e.ret is not None and e.ret.op == "call") if len(p) else False
        rep.verdict(v, "sum-push", fn.path, "adding a point again does not add up its factors")
    fn = rep.anchor(prog, C, "merge", "ScalarsAndBases")
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "push")
        al = Alg(q, {1: "self", 2: "c", 3: "o"})
        cs = [e for e in an.events if e.ret is not None and iscall(e.ret, "push")]
        if len(cs) == 1:
            lettered(al, an, cs[0].node.id)
            try:
                sc, b = ptext(al.poly(cs[0].ret.args[3])), q.norm(cs[0].ret.args[4])
                el = q.norm(b.args[0]) if b.op == "field" else b
                ok = b.op == "field" and str(b.args[1]) == "0" and sc == "c*o.base_scalar_map[n].1" and al.name(el) == "o.base_scalar_map[n]" and always(an, q, cs[0].node.id)
                rep.verdict(ok, "sum-merge", fn.path, f"merging adds {show(b)} with factor {sc}")
            except Unknown as e:
                rep.verdict(None, "sum-merge", fn.path, str(e))
        else:
            rep.verdict(None, "sum-merge", fn.path, f"{len(cs)} additions")


@check("L05", [C], """Openings of PLONK. Decided: the order in which commitments and evaluations (verifier) and polynomials (prover) are combined, read off the chain of states, per point; every
required one exactly once, with the next power of the same challenge, the factors of evaluations being those of the commitments; the points of the openings; the components of the equation
(factor of every commitment as a polynomial) and the pairing it is decided with, for batches, partial verification and the final decision; powers of the separating challenge per constraint
and per instance.""", floor=9)
def l05(rep, prog):
    ordered(rep, prog)
    info(rep, prog)
    equation(rep, prog)
    containers(rep, prog)
