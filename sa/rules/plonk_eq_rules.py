"""L04: prover and verifier of PLONK check the same equations; the equations are written down once, here."""
from common import *
from algebra import *
from core import check

C = "jf_plonk"
OPAQUE = {"mul_poly", "eval_merged_table", "eval_merged_lookup_witness", "evaluate_pi_poly", "first_lagrange_coeff", "last_lagrange_coeff", "first_and_last_lagrange_coeffs",
          "evaluate_vanishing_polynomial", "group_gen_inv", "coset_offset", "coset_offset_pow_size", "size_as_field_element"}


def gate(s, w):
    return (" + ".join(f"{s(k)}*{w(k)}" for k in range(4)) + f" + {s(4)}*{w(0)}*{w(1)} + {s(5)}*{w(2)}*{w(3)} + "
            + " + ".join(f"{s(6 + k)}*{w(k)}**5" for k in range(4)) + f" - {s(10)}*{w(4)} + {s(11)} + {s(12)}*" + "*".join(w(k) for k in range(5)))


TABLE = "eval_merged_table(ch.tau, {e}.range_table_eval, {e}.key_table_eval, {e}.q_lookup_eval, {w}[3], {w}[4], {e}.table_dom_sep_eval)"
TABLEN = "eval_merged_table(ch.tau, {e}.range_table_next_eval, {e}.key_table_next_eval, {e}.q_lookup_next_eval, {e}.w_3_next_eval, {e}.w_4_next_eval, {e}.table_dom_sep_next_eval)"
LOOKUP = "eval_merged_lookup_witness(ch.tau, {w}[5], {w}[0], {w}[1], {w}[2], {e}.q_lookup_eval, {e}.q_dom_sep_eval)"
ADJ = "(1 + ch.beta)*(ch.gamma + {lk})*(ch.gamma*(1 + ch.beta) + {t} + ch.beta*{tn})"


def pair(al, t):
    """the components of the pair of Lagrange coefficients"""
    if t.op == "field" and str(t.args[1]) in "01":
        c = al.q.norm(t.args[0])
        if iscall(c, "first_and_last_lagrange_coeffs"):
            return ("first" if str(t.args[1]) == "0" else "last") + f"_lagrange_coeff({','.join(al.text(x) for x in c.args[2:])})"
    return None


def parts(q, an):
    """the returned value, or the components of a returned tuple"""
    vs = {q.norm(v) for _, v in returned(q, ok_exits(an))}
    if len(vs) != 1:
        return None
    v = vs.pop()
    return list(v.args[3:]) if v.op == "agg" and v.args[0] == "tuple" else [v]


def value(rep, prog, name, head, names, facet, wants, msg, opaque=OPAQUE, crate=C):
    fn = rep.anchor(prog, crate, name, head)
    if fn is None:
        return
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in opaque and g is not fn)
    al = Alg(q, {i + 1: n for i, n in enumerate(names.split())}, pair)
    vs = parts(q, an)
    if vs is None or len(vs) != len(wants):
        rep.verdict(None, facet, fn.path, msg)
        return
    for k, (v, want) in enumerate(zip(vs, wants)):
        is_formula(rep, al, facet + (f"-{k + 1}" if len(wants) > 1 else ""), fn.path, v, want, msg)


@check("L04", [C, "jf_relation"], """Equations of PLONK. Decided: the value a function returns (or pushes) is rewritten to a polynomial over named inputs (field paths of the arguments; loops become sums and
products over named lists) and compared with the equation written down in the rule. Gate equation: prover quotient, prover linearisation, verifier factors per selector, circuit check. Wire
permutation and lookup: quotient, linearisation, verifier factors and constant term. Lagrange coefficients. Powers of x^(n+2) of the quotient parts. A loop or atom without a name is
undecided.""", floor=12)
def l04(rep, prog):
    w = lambda k: f"w[{k}]"
    # ---- the gate equation
    value(rep, prog, "compute_quotient_circuit_contribution", "Prover", "pos w pi sel", "gate-quotient", ["pi + " + gate(lambda k: f"sel[{k}][pos]", w)],
          "the gate equation in the quotient polynomial")
    value(rep, prog, "compute_lin_poly_circuit_contribution", "Prover", "pk w", "gate-linear", [gate(lambda k: f"pk.selectors[{k}]", w)], "the gate equation in the linearisation polynomial")
    check_gate(rep, prog)
    # ---- the permutation argument
    value(rep, prog, "compute_quotient_copy_constraint_contribution", "Prover", "pos x pk w z zn ch sig", "copy-quotient",
          ["ch.alpha*z*prod('w', w[i] + pk.vk.k[i]*x*ch.beta + ch.gamma) - ch.alpha*zn*prod('w', w[i] + sig[i][pos]*ch.beta + ch.gamma)",
           "ch.alpha*ch.alpha*(z - 1)*inv(pk.vk.domain_size*(x - 1))"], "the wire permutation in the quotient polynomial")
    value(rep, prog, "compute_lin_poly_copy_constraint_contribution", "Prover", "self pk ch ev z", "copy-linear",
          ["z*(ch.alpha*prod('ev.wires_evals', ev.wires_evals[i] + ch.beta*pk.vk.k[i]*ch.zeta + ch.gamma) + ch.alpha**2*first_lagrange_coeff(self.domain, ch.zeta))"
           " - pk.sigmas[-1]*ch.alpha*ch.beta*ev.perm_next_eval*prod('ev.wire_sigma_evals&ev.wires_evals[:-1]', ev.wires_evals[i] + ch.beta*ev.wire_sigma_evals[i] + ch.gamma)"],
          "the wire permutation in the linearisation polynomial")
    # ---- the lookup argument
    xw = "(pos Add (size(self.quot_domain) Div pk.vk.domain_size)) Rem size(self.quot_domain)"
    at = lambda v: "'%s[pos]'" % v
    nx = lambda v: "'%s[(%s)]'" % (v, xw)
    t = f"eval_merged_table(ch.tau, {at('rt')}, {at('kt')}, {at('ql')}, w[3], w[4], {at('ts')})"
    tn = f"eval_merged_table(ch.tau, {nx('rt')}, {nx('kt')}, {nx('ql')}, wn[3], wn[4], {nx('ts')})"
    lk = f"eval_merged_lookup_witness(ch.tau, w[5], w[0], w[1], w[2], {at('ql')}, {at('qs')})"
    hh = lambda v: f"(ch.gamma*(1 + ch.beta) + {at(v)} + ch.beta*{nx(v)})"
    zh = "inv(evaluate_vanishing_polynomial(self.domain, x))"
    l1, ln = "first_lagrange_coeff(self.domain, x)", "last_lagrange_coeff(self.domain, x)"
    value(rep, prog, "compute_quotient_plookup_contribution", "Prover", "self pos x pk w wn h p rt kt ql ts qs ch", "lookup-quotient",
          [f"ch.alpha**6*(x - self.domain.group_gen_inv)*({at('p')}*{ADJ.format(lk=lk, t=t, tn=tn)} - {nx('p')}*{hh('h[0]')}*{hh('h[1]')})",
           f"ch.alpha**3*({at('h[0]')} - {nx('h[1]')})*{ln}*{zh} + ch.alpha**4*({at('p')} - 1)*{l1}*{zh} + ch.alpha**5*({at('p')} - 1)*{ln}*{zh}"],
          "the lookup argument in the quotient polynomial")
    e = dict(e="ev", w="w")
    adj = ADJ.format(lk=LOOKUP.format(**e), t=TABLE.format(**e), tn=TABLEN.format(**e))
    value(rep, prog, "compute_lin_poly_plookup_contribution", "Prover", "self ch w ev or_", "lookup-linear",
          [f"or_.prod_lookup_poly*(ch.alpha**4*first_lagrange_coeff(self.domain, ch.zeta) + ch.alpha**5*last_lagrange_coeff(self.domain, ch.zeta) + ch.alpha**6*(ch.zeta - self.domain.group_gen_inv)*{adj})"
           " - or_.h_polys[1]*ch.alpha**6*(ch.zeta - self.domain.group_gen_inv)*ev.prod_next_eval*(ch.gamma*(1 + ch.beta) + ev.h_1_eval + ch.beta*ev.h_1_next_eval)"],
          "the lookup argument in the linearisation polynomial")
    value(rep, prog, "eval_merged_table", None, "tau r k q w3 w4 d", "merged-table", ["r + q*tau*(d + tau*(k + tau*(w3 + tau*w4)))"], "the merged table value")
    value(rep, prog, "eval_merged_lookup_witness", None, "tau r w0 w1 w2 q d", "merged-witness", ["r + q*tau*(d + tau*(w0 + tau*(w1 + tau*w2)))"], "the merged lookup value")
    lagrange(rep, prog)
    constant_term(rep, prog)
    linearisation(rep, prog)


def check_gate(rep, prog):
    fn = rep.anchor(prog, "jf_relation", "check_gate", "PlonkCircuit")
    sel = rep.anchor(prog, "jf_relation", "all_selectors", "PlonkCircuit")
    if fn is None or sel is None:
        return
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name.startswith("q_"))
    al = Alg(q, {1: "self", 2: "g", 3: "pi"})
    wv = lambda k: f"self.witness[self.wire_variables[{k}][g]]"
    order = ["q_lc"] * 4 + ["q_mul"] * 2 + ["q_hash"] * 4 + ["q_o", "q_c", "q_ecc"]
    pos = [0, 1, 2, 3, 0, 1, 0, 1, 2, 3, None, None, None]
    s = lambda k: f"'{order[k]}(self.gates[g])" + ("'" if pos[k] is None else f"[{pos[k]}]'")
    want = formula("pi + " + gate(s, wv))
    got = []
    unk = None
    facts, _ = accept_facts(an, q)
    for x in facts:
        if x.must and x.pred[0] == "Eq":
            try:
                got.append(nadd(al.poly(x.pred[1]), al.poly(x.pred[2]), -1))
            except Unknown as ex:
                unk = ex
    ok = any(p == want or nadd({}, p, -1) == want for p in got)
    rep.verdict(True if ok else None if unk or not got and any(not x.must for x in facts) else False, "gate-check", fn.path,
                f"the gate equation a circuit is checked with: found {' ; '.join(ptext(p)[:300] for p in got) or unk}, expected {ptext(want)[:300]}")


def lagrange(rep, prog):
    """first and last Lagrange coefficient: the quotient outside of the domain, 1 or 0 on it"""
    off, k = "coset_offset(self)", "size_as_field_element(self)*coset_offset_pow_size(self)*inv(coset_offset(self))"
    z, g = "evaluate_vanishing_polynomial(self, x)", "group_gen_inv(self)"
    first, last = formula(f"{z}*inv({k}*(x - {off}))"), formula(f"{z}*{g}*inv({k}*(x - {off}*{g}))")
    here = {0: formula(f"x - {off}"), 1: formula(f"x - {off}*{g}")}
    for name, wants in (("first_lagrange_coeff", {0: first}), ("last_lagrange_coeff", {1: last}), ("first_and_last_lagrange_coeffs", {0: first, 1: last})):
        fn = rep.anchor(prog, C, name, "Radix2EvaluationDomain")
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn, opaque=lambda h: h.name in OPAQUE and h is not fn)
        al = Alg(q, {1: "self", 2: "x"})
        zero = formula(z)
        for which, want in wants.items():
            general, v, why = False, True, ""
            rows = []
            for n in ok_exits(an):
                for conds, t in returned(q, [n]):
                    if len(wants) == 1:
                        rows.append((conds, t))
                        continue
                    t = q.norm(t)
                    cs = q.cases(n, t.args[3 + which]) if t.op == "agg" and t.args[0] == "tuple" else None
                    rows += [(list(conds) + list(c), x) for c, x in cs] if cs is not None else [(conds, T("undef"))]
            for conds, t in rows:
                try:
                    p = al.poly(t)
                    known = {}
                    for c, lab in conds:
                        c = q.norm(c)
                        if c.op == "bin" and c.args[0] in ("Eq", "Ne"):
                            d = nadd(al.poly(c.args[1]), al.poly(c.args[2]), -1)
                            yes = bool(lab) == (c.args[0] == "Eq")
                        elif iscall(c, "eq", "ne") and len(c.args) == 4:
                            d = nadd(al.poly(c.args[2]), al.poly(c.args[3]), -1)
                            yes = bool(lab) == (callname(c) == "eq")
                        elif iscall(c, "is_zero") and len(c.args) == 3:
                            d, yes = al.poly(c.args[2]), bool(lab)
                        else:
                            continue
                        for key, e in ((0, here[0]), (1, here[1]), ("z", zero)):
                            if d == e or nadd({}, d, -1) == e:
                                known[key] = yes
                except Unknown as ex:
                    v, why = None, str(ex)
                    break
                if p == want:
                    general = True
                    if known.get("z") is not False:
                        v, why = (None if v else v), "the quotient is used where the vanishing polynomial may be zero"
                elif p == {(): 1}:
                    if known.get(which) is not True:
                        v, why = False, "1 away from the own point"
                elif p == {}:
                    if known.get(which) is True or known.get("z") is not True and known.get(1 - which) is not True:
                        v, why = False, "0 where the coefficient need not vanish"
                    elif known.get("z") is True and known.get(which) is not False and known.get(1 - which) is not True:
                        v, why = False, "0 at the own point"
                else:
                    v, why = False, f"found {ptext(p)}, expected {ptext(want)}"
            if v is True and not general:
                v, why = False, "no case gives the quotient"
            rep.verdict(v, "lagrange", f"{fn.path} {('first', 'last')[which]}", f"the Lagrange coefficient is wrong: {why}")


def constant_term(rep, prog):
    fn = rep.anchor(prog, C, "compute_lin_poly_constant_term", "Verifier")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in OPAQUE)
    al = Alg(q, {i + 1: n for i, n in enumerate("self ch vks pis pf l1 ln ap ab".split())})
    vs = parts(q, an)
    e, lk = "pf.poly_evals_vec[i]", "pf.plookup_proofs_vec[i].poly_evals"
    m = "'either(0 | 1)+4'"
    wm = f"'{e}.wires_evals[either(0 | 1)+4]'"
    base = (f"evaluate_pi_poly(self, pis[i], ch.zeta, vks[i].is_merged) - ap[0]*l1 - ch.alpha*{e}.perm_next_eval*(ch.gamma + {wm})"
            f"*prod('{e}.wire_sigma_evals&{e}.wires_evals[:either(0 | 1)+4]', ch.gamma + {e}.wires_evals[j] + ch.beta*{e}.wire_sigma_evals[j])")
    gb = "ch.gamma*(1 + ch.beta)"
    look = (f"{base} + ap[1]*(ln*({lk}.h_1_eval - {lk}.h_2_next_eval - ap[0]) - ch.alpha*l1 - ap[1]*(ch.zeta - self.domain.group_gen_inv)*{lk}.prod_next_eval"
            f"*({gb} + {lk}.h_1_eval + ch.beta*{lk}.h_1_next_eval)*({gb} + ch.beta*{lk}.h_2_next_eval))")
    want = f"sum('vks&pis&pf.plookup_proofs_vec&pf.poly_evals_vec&ab', ab[i]*either({base}, {look}))"
    doms = {"vks&pis&pf.plookup_proofs_vec&pf.poly_evals_vec&ab": None}
    if vs is None or len(vs) != 1:
        rep.verdict(None, "constant-term", fn.path, "the constant term of the linearisation")
        return
    # the order in which a zip names its lists is immaterial
    want = want.replace("vks&pis&pf.plookup_proofs_vec&pf.poly_evals_vec&ab", "&".join(sorted("vks pis pf.plookup_proofs_vec pf.poly_evals_vec ab".split())))
    is_formula(rep, al, "constant-term", fn.path, vs[0], want, "the constant term of the linearisation")


def always(an, q, nid, within=None):
    """no accepting run (no iteration of the loop around it) leaves the node out"""
    loops = [(h, b, l) for h, (b, l) in an.loops().items() if nid in b]
    if loops:
        h, body, latches = min(loops, key=lambda x: len(x[1]))
        seen, todo = {h}, [h]
        while todo:
            x = todo.pop()
            if x == nid:
                continue
            if x in latches:
                return False
            for s in an.nodes[x].succ:
                if s in body and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return True
    ends = {n.id for n in ok_exits(an)}
    seen, todo = set(), [an.entry_node if hasattr(an, "entry_node") else 0]
    while todo:
        x = todo.pop()
        if x == nid or x in seen:
            continue
        seen.add(x)
        if x in ends:
            return False
        todo.extend(an.nodes[x].succ)
    return True


def linearisation(rep, prog):
    fn = rep.anchor(prog, C, "linearization_scalars_and_bases", "Verifier")
    if fn is None:
        return
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in OPAQUE or g.name in ("push", "merge") and "ScalarsAndBases" in g.path)
    arrays = {}

    def rewrite(al, t):
        if t.op in ("elem", "index") and q.norm(t.args[0]).op == "store":
            k = al.kf(t)
            if k.op == "index":
                arrays[q.norm(t.args[0])] = 1
                return f"q[{al.itext(k.args[1])}]"
        return None

    al = Alg(q, {i + 1: n for i, n in enumerate("self vks ch zh l1 ln pf ap ab".split())}, rewrite)
    got, unk = [], None
    for ev in an.events:
        c = ev.ret
        if not (c is not None and c.op == "call" and c.args[0].endswith("::push") and "ScalarsAndBases" in c.args[0] and len(c.args) >= 5):
            continue
        loops = sorted([(len(b), h) for h, (b, l) in an.loops().items() if ev.node.id in b], reverse=True)
        al.sites, al.memo = {}, {}
        for (_, h), letter in zip(loops, ["n", "m"]):
            for s in al.site(h):
                al.sites[s] = letter
        try:
            got.append((al.name(c.args[4]), c.args[3], dict(al.sites), ev))
        except Unknown as ex:
            unk = ex
    e, ev_, lp = "pf.poly_evals_vec[n]", "pf.poly_evals_vec[n].wires_evals", "pf.plookup_proofs_vec[n]"
    en = dict(e=lp + ".poly_evals", w=ev_)
    adj = ADJ.format(lk=LOOKUP.format(**en), t=TABLE.format(**en), tn=TABLEN.format(**en))
    gi = "self.domain.group_gen_inv"
    want = {
        "pf.prod_perm_poly_comms_vec[n]": [f"ab[n]*(ap[0]*l1 + ch.alpha*prod('{x}', ch.beta*vks[n].k[i]*ch.zeta + ch.gamma + {ev_}[i]))" for x in (f"{ev_}&vks[n].k", ev_, "vks[n].k")],
        "vks[n].sigma_comms[-1]": [f"0 - ab[n]*ch.alpha*ch.beta*{e}.perm_next_eval*prod('{x}', ch.beta*{e}.wire_sigma_evals[i] + ch.gamma + {ev_}[i])"
                                   for x in (f"{e}.wire_sigma_evals&{ev_}[:#pf.wires_poly_comms_vec[n]-1]", f"{e}.wire_sigma_evals&{ev_}[:-1]", f"{e}.wire_sigma_evals", f"{e}.wire_sigma_evals&{ev_}")],
        "vks[n].selector_comms[m]": ["ab[n]*q[m]"],
        f"{lp}.prod_lookup_poly_comm": [f"ab[n]*(ap[2]*l1 + ap[3]*ln + ap[4]*(ch.zeta - {gi})*{adj})"],
        f"{lp}.h_poly_comms[1]": [f"ab[n]*ap[4]*({gi} - ch.zeta)*{lp}.poly_evals.prod_next_eval*(ch.gamma*(1 + ch.beta) + {lp}.poly_evals.h_1_eval + ch.beta*{lp}.poly_evals.h_1_next_eval)"],
        "pf.split_quot_poly_comms[0]": ["0 - zh"],
    }
    for base, fs in want.items():
        mine = [g for g in got if g[0] == base]
        if len(mine) != 1:
            rep.verdict(None if unk or len(mine) > 1 else False, "linear-verifier", f"{fn.path} {base}", f"the commitment takes part {len(mine)} times in the verifier's linearisation ({unk or ', '.join(g[0] for g in got)})")
            continue
        _, sc, al.sites, ev = mine[0]
        al.memo = {}
        is_formula(rep, al, "linear-verifier", f"{fn.path} {base}", sc, fs[0], "the factor of this commitment in the verifier's linearisation", fs[1:])
        if lp not in base:
            rep.verdict(always(an, q, ev.node.id), "linear-always", f"{fn.path} {base}", "the commitment is left out in some cases")
    extra = [g[0] for g in got if g[0] not in want and not g[0].startswith("pf.split_quot_poly_comms")]
    rep.verdict(None if unk else not extra, "linear-nothing-else", fn.path, f"other commitments take part: {extra}")
    # the later parts of the quotient: every one, with the power of x^(n+2)
    mine = [g for g in got if g[0].startswith("pf.split_quot_poly_comms") and g[0] != "pf.split_quot_poly_comms[0]"]
    if len(mine) != 1:
        rep.verdict(None if unk else False, "linear-quotient", fn.path, f"the later parts of the quotient take part {len(mine)} times")
    else:
        base, sc, al.sites, ev = mine[0]
        al.memo = {}
        # the factor after j steps, from the recurrence of the loop
        v = None
        r = ring(q, sc)
        ph = [x for mm in r for x in mm if x.op == "phi"]
        rc = recur(q, ph[0]) if ph else None
        if rc is not None:
            try:
                init = al.poly(rc[0])
                step = {}
                for mm, c in ring(q, rc[1]).items():
                    p = {(): c}
                    for x in mm:
                        p = nmul(p, {("PH",): 1} if x is ph[0] else al.atom(x))
                    step = nadd(step, p)
                here = {}
                for mm, c in r.items():
                    p = {(): c}
                    for x in mm:
                        p = nmul(p, {("PH",): 1} if x is ph[0] else al.atom(x))
                    here = nadd(here, p)
                f1 = formula("(1 + zh)*ch.zeta*ch.zeta*PH")
                m0 = formula("0 - zh")
                v = step == f1 and (init == m0 and here == f1 or init == nmul(m0, formula("(1 + zh)*ch.zeta*ch.zeta")) and here == {("PH",): 1})
                d = q.loop_domain(rc[2])
                v = v and al.dom(d) == ["pf.split_quot_poly_comms[1:]"] and base.endswith("[n+1]")
            except Unknown:
                v = None
        rep.verdict(v, "linear-quotient", fn.path, f"the parts of the quotient are not combined with the powers of x^(n+2): {base} {show(sc)}")
    # selector factors
    if not arrays:
        rep.verdict(None, "gate-verifier", fn.path, "the factors of the selectors are not kept in one array")
        return
    w = lambda k: f"{ev_}[{k}]"
    for a in arrays:
        entries, t = {}, a
        while t.op == "store" and len(t.args[1]) == 1 and t.args[1][0][0] == "idx":
            i = t.args[1][0][1]
            i = int(i.args[0]) if isinstance(i, Term) and is_int_const(i) else i if isinstance(i, int) else None
            if i is None:
                break
            entries.setdefault(i, t.args[2])
            t = q.norm(t.args[0])
        al.memo, al.sites = {}, {}
        one = gate(lambda k: f"s{k}", w)
        full = formula(one)
        for k in range(13):
            want_k = {tuple(x for x in m if x != f"s{k}"): c for m, c in full.items() if f"s{k}" in m}
            if k not in entries:
                rep.verdict(None if t.op == "store" else False, "gate-verifier", f"{fn.path} selector {k}", "the selector has no factor")
                continue
            is_formula(rep, al, "gate-verifier", f"{fn.path} selector {k}", entries[k], want_k, "the factor of a selector in the verifier's linearisation")
