"""Circuits: finalisation, wire permutation, polynomials given to the prover, merging."""
from common import *
from algebra import *
from core import check
from effect import *
from relation_circuit_rules import okish, nid, unless, covered, left_out, preds_at, as_preds, walk_terms, field_names, kind_of, guard_on, PC, C

CHK = {"check_finalize_flag", "check_plonk_type", "is_finalized", "wire_variable", "witness", "range_size", "eval_domain_size", "support_lookup"}


class Names(Alg):
    """values and positions as polynomials over n (domain size), fields of the circuit, and the letters of the loops around them"""
    def __init__(self, q, me, extra=None):
        self.me = me if isinstance(me, dict) else {me: "self"}
        super().__init__(q, {}, lambda al, t: self.rw(t))
        self.names.update(self.me)
        self.extra = extra or {}

    def into(self, loops):
        """self with the letters i, j, k for these loops (headers or sites), outermost first"""
        self.sites, self.memo = {}, {}
        for s, l in zip(loops, "ijkl"):
            for x in (self.site(s) if isinstance(s, int) and s in self.q.an.loops() else {s}):
                self.sites[x] = l
        return self

    def state(self, t, f, seen=None):
        """name of the circuit a state belongs to, when field f has not been written since; name' when it has"""
        seen = set() if seen is None else seen
        t = self.q.an.simp(t)
        if t in self.me:
            return {self.me[t]}
        if t in seen:
            return set()
        seen.add(t)
        if t.op == "store":
            p = t.args[1]
            mine = p and p[0][0] == "f" and p[0][-1] == f
            r = self.state(t.args[0], f, seen)
            return {x + "'" if not x.endswith("'") else x for x in r} if mine else r
        if t.op == "phi":
            r = set()
            for x in self.q.an.phis.get(t, {}).values():
                if x.op != "undef":
                    r |= self.state(x, f, seen)
            if any(x.endswith("'") for x in r):
                r = {x if x.endswith("'") else x + "'" for x in r}
            return r
        if t.op == "out" and t.args[0].op == "call" and isinstance(t.args[1], int):
            return self.state(t.args[0].args[2 + t.args[1]], f, seen)
        n = self.q.norm(t)
        return self.state(n, f, seen) if n is not t else {"?"}

    def rw(self, t):
        q = self.q
        if t in self.extra:
            return self.extra[t]
        if is_int_const(t):
            return {(): int(t.args[0])} if int(t.args[0]) else {}
        if t.op == "bin" and t.args[0] == "Div" and is_const(q.norm(t.args[2]), 2):
            p = self.poly(t.args[1])
            if p and all(c % 2 == 0 for c in p.values()):
                return {m: c // 2 for m, c in p.items()}
        if t.op in ("conv", "cast"):
            return self.poly(t.args[0])
        if t.op == "call" and t.args[0].split("::")[-1] == "size" and len(t.args) == 3:
            x = q.norm(t.args[2])
            if x.op == "field" and x.args[1] == "eval_domain":
                s = self.state(x.args[0], "eval_domain")
                return self.size if s <= set(self.me.values()) and len(s) == 1 else None
        c = okof(t)
        if c is not None and c.op == "call":
            k = nm(c)
            if k == "eval_domain_size":
                return self.size
            if k == "witness" and len(c.args) == 4:
                return f"value({self.text(c.args[3])})"
            if k == "range_size":
                return "range"
            return f"{k}({','.join(self.text(x) for x in c.args[3:] if isinstance(x, Term))})"
        if t.op == "call" and nm(t) == "wire_variable" and len(t.args) == 5:
            return f"{self.name(t.args[2])}.wire_variables[{self.text(t.args[3])}][{self.text(t.args[4])}]"
        if t.op == "call" and len(t.args) == 2 and nm(t) in ("zero", "one"):
            return {(): 1} if nm(t) == "one" else {}
        if t.op == "idx":
            return self.letter(t.args[1])
        if t.op == "ridx":
            return nadd(self.poly(t.args[0]), {(self.letter(t.args[2]),): 1})
        if t.op == "elem":
            xs = q.norm(t.args[0])
            if xs.op in ("map",) and self.letter(t.args[1]) != "n":
                return None
            off = ""
            while xs.op in ("skip", "take", "enumerate", "itermut"):
                if xs.op == "skip":
                    off = ptext(self.poly(xs.args[1]))
                if xs.op == "itermut":
                    break
                xs = q.norm(xs.args[0])
            l = self.letter(t.args[1])
            return f"{self.name(xs)}[{off + ' + ' if off else ''}{l}]"
        if t.op == "index":
            return f"{self.name(t.args[0])}[{self.text(t.args[1])}]"
        if t.op == "field":
            x = q.norm(t.args[0])
            if x.op == "as":
                return None
            if str(t.args[1]).isdigit():
                return f"{self.name(x)}.{t.args[1]}"
            s = self.state(x, t.args[1])
            return f"{next(iter(s))}.{t.args[1]}" if len(s) == 1 and "?" not in s else None
        return None

    size = "n"
    deep = False

    def poly(self, t):
        old, self.deep = self.deep, True
        try:
            return super().poly(t)
        finally:
            self.deep = old

    def name(self, t):
        old, self.deep = self.deep, False
        try:
            r = super().name(t)
            return ptext(r) if isinstance(r, dict) else r
        finally:
            self.deep = old

    def domtext(self, d):
        q = self.q
        if d is None:
            raise Unknown("the extent of a loop")
        d = q.norm(d)
        if d.op in ("enumerate", "itermut", "iter"):
            return self.domtext(d.args[0]) if d.op != "itermut" else self.mref(d.args[0])
        if d.op == "agg" and str(d.args[0]).split("::")[-1] == "Range":
            return f"{self.text(d.args[3])}..{self.text(d.args[4])}"
        if d.op == "take":
            return f"{self.domtext(d.args[0])}[..{self.text(d.args[1])}]"
        if d.op == "skip":
            return f"{self.domtext(d.args[0])}[{self.text(d.args[1])}..]"
        return self.name(d)

    def mref(self, m):
        p = m.args[2] if m.op == "mref" else None
        if p is None:
            return "?"
        return "self." + ".".join(str(x[-1]) for x in p) if p else "local"


def P(text):
    return ptext(formula(text))


class Fn:
    def __init__(self, rep, prog, name, opaque=CHK, head=PC):
        self.rep = rep
        self.fn = rep.anchor(prog, C, name, head)
        self.ok = bool(self.fn)
        if not self.ok:
            return
        f = self.fn
        self.an, self.q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opaque or g.intrait))
        self.w = f.path
        self.oks = [n for n in self.an.exits() if okish(self.q, n)]
        self.me = arg(f, 1)
        self.nm = Names(self.q, self.me)

    def cases(self):
        """(conditions, payload) of the successful results"""
        out = []
        for n in self.oks:
            for p, v in outcomes(self.q, n):
                if v.op == "agg" and v.args[1] == "Ok":
                    out.append((p, self.q.norm(v.args[3])))
                elif not (v.op == "agg" and v.args[1] == "Err"):
                    out.append((p, v))
        return out

    def values(self):
        return [v for _, v in self.cases()]

    def effects(self):
        """[alternative] of what happens to the circuit"""
        out = []
        for n in self.oks:
            t = final(n, 1)
            e = effect(self.q, t, self.me) if t is not None else None
            if e is None:
                return None
            out += e
        return dedup(out)

    def text(self, facet, loops, t, want, msg, poly=True):
        """the value is the polynomial want"""
        al = self.nm.into(loops)
        try:
            got = al.text(t)
        except Unknown as ex:
            return self.rep.verdict(None, facet, self.w, f"{msg}: {ex}")
        wants = [P(x) for x in ([want] if isinstance(want, str) else want)]
        return self.rep.verdict(got in wants, facet, self.w, f"{msg}: found {got[:260]}, expected {wants[0][:260]}")

    def dom(self, facet, loops, d, want, msg):
        if d is None:
            return self.rep.verdict(None, facet, self.w, f"{msg}: the extent of the loop is not known")
        al = self.nm.into(loops)
        try:
            got = al.domtext(d)
        except Unknown as ex:
            return self.rep.verdict(None, facet, self.w, f"{msg}: {ex}")
        return self.rep.verdict(got in ([want] if isinstance(want, str) else want), facet, self.w, f"{msg}: found {got[:260]}, expected {want}")


def flat(alts, loops=(), some=False):
    """(item, loops around it, does it only happen sometimes) of an effect"""
    for a in alts:
        for it in a:
            s = some or any(it not in b for b in alts)
            if it[0] == "loop":
                yield from flat(it[3], loops + ((it[1], it[2]),), s)
            else:
                yield it, loops, s


def sets(alts, field):
    return dedup([(it[1][1:], it[2], ls, s) for it, ls, s in flat(alts) if it[0] == "set" and it[1][:1] == (field,)])


def ifft_of(q, t):
    """the evaluations a polynomial is interpolated from, over the circuit's own domain"""
    t = q.norm(t)
    if nm(t) != "from_coefficients_vec":
        return None
    x = q.norm(t.args[2])
    if x.op == "call" and nm(x) == "ifft":
        return (x.args[2], q.norm(x.args[3]))
    if x.op == "out" and x.args[0].op == "call" and nm(x.args[0]) == "ifft_in_place" and x.args[1] == 1:
        return (x.args[0].args[2], q.norm(x.args[0].args[3]))
    return None


@check("C06", [C], """Arithmetisation of circuits. What a function does to the circuit is extracted as a tree of writes (loops with their domains, alternatives of branches); positions and
values in it are rewritten to polynomials over the domain size n, the loop counters i, j and fields of the circuit, and compared with the definition: identity permutation [i n + j] = k_i g^j;
one cycle per variable over all its occurrences; sigma[i n + j] = id[position of the successor]; wire polynomials from the witness values of the wires, selector, key and separator polynomials from the
gates, public input polynomial only at public input gates, all interpolated over the circuit's domain; both grand products with start value, factors and number of steps; merged table and lookup values;
sorted vector with multiplicities and its two overlapping halves; range table 0..2^b padded with zero. Finalisation: enough slots, padding of gates and wires to n, gates only moved together
with all their wires, public input gates first in order, lookup gates in the last slots but one; for merging, the doubled domain, reversed positions of the second kind; merging: gates, wires (shifted by the
number of variables), witnesses, public inputs and permutations of both halves.""", floor=20)
def c06(rep, prog):
    permutation(rep, prog)
    polynomials(rep, prog)
    products(rep, prog)
    lookups(rep, prog)
    finalisation(rep, prog)
    merging(rep, prog)


def permutation(rep, prog):
    f = Fn(rep, prog, "compute_extended_id_permutation", CHK | {"compute_coset_representatives"})
    if f.ok:
        e = f.effects()
        ws = sets(e, "extended_id_permutation") if e is not None else []
        w = [x for x in ws if len(x[0]) == 1 and len(x[2]) == 2]
        if not w:
            rep.verdict(None, "identity", f.w, "the identity permutation is not written position by position")
        for pos, val, ls, some in w:
            hs = [h for h, _ in ls]
            f.text("identity-position", hs, pos[0], ["i*n + j"], "position in the identity permutation")
            al = f.nm.into(hs)
            try:
                doms = [strip_dom(f.q, d) for _, d in ls]
                okk = iscallnm(doms[0], "compute_coset_representatives") and iscallnm(doms[1], "elements")
                al.extra = {doms[0]: "cosets", doms[1]: "domain"}
                al.into(hs)
                got = al.text(val)
                rep.verdict(got == P("'cosets[i]'*'domain[j]'") if okk else None, "identity-value", f.w,
                            f"the identity permutation is not the product of coset representative and domain element: {got[:200]}")
            except Unknown as ex:
                rep.verdict(None, "identity-value", f.w, str(ex))
            for d in (strip_dom(f.q, ls[0][1]),):
                if iscallnm(d, "compute_coset_representatives"):
                    f.text("identity-cosets", [], d.args[2], "self.num_wire_types", "number of coset representatives")
            whole = [left_out(f.q, d) == [] for _, d in ls]
            rep.verdict(not some and all(whole), "identity-all", f.w, "some positions of the identity permutation are not set")
    f = Fn(rep, prog, "compute_extended_permutation")
    if f.ok:
        got, odd = {}, False
        for cs, v in f.cases():
            if v.op != "map":
                odd = True
                continue
            f.dom("sigma-all", [], v.args[0], "self.wire_permutation", "the permutation does not cover all wires")
            al = f.nm.into([v.args[2]])
            for cs2, x in cases_of(f.q, v.args[1]):
                try:
                    pre = set()
                    for p in as_preds(f.q, cs) + cs2:
                        if len(p) > 2 and isinstance(p[1], Term) and isinstance(p[2], Term) and any(y.op == "elem" for z in p[1:3] for y in walk_terms(f.q, z)):
                            pre.add((p[0], al.text(p[1]), al.text(p[2])))
                    got.setdefault(al.text(x), set()).add(frozenset(pre))
                except Unknown as ex:
                    odd = str(ex)
        want = P("'self.extended_id_permutation[n*self.wire_permutation[i].0 + self.wire_permutation[i].1]'")
        if odd or not got:
            rep.verdict(None, "sigma", f.w, f"the permutation is not read {odd}")
        else:
            rep.verdict(want in got and set(got) <= {want, "0"}, "sigma", f.w, f"the permutation does not point to the identity of the successor: found {sorted(got)}")
            w0, m = "self.wire_permutation[i].0", "self.num_wire_types"
            for pre in got.get("0", ()):
                rep.verdict(bool(pre & {("Ge", w0, m), ("Le", m, w0)}), "sigma-undefined", f.w, f"defined successors are dropped: {sorted(pre)}")
    f = Fn(rep, prog, "compute_wire_permutation")
    if f.ok:
        # occurrences
        hit = None
        for ev in f.an.events:
            if not ev.name.endswith("Vec::push"):
                continue
            x, v = f.q.norm(ev.args[0]), f.q.norm(ev.args[1])
            if x.op != "index" or v.op != "agg" or v.args[0] != "tuple":
                continue
            pre, ls = unless(f.an, f.q, nid(ev.node), f.oks)
            if len(ls) != 2:
                continue
            inner, outer = ls
            al = f.nm
            ho, hi = [h for h in loops_around(f.an, nid(ev.node))][::-1][:2]
            al.into([ho, hi])
            try:
                got = (al.text(x.args[1]), al.text(v.args[3]), al.text(v.args[4]), al.domtext(outer[0]), al.domtext(inner[0]))
            except Unknown as ex:
                continue
            want = ("self.wire_variables[i][j]", "i", "j", "self.wire_variables[..self.num_wire_types]", "self.wire_variables[i]")
            hit = hit or (got == want and not pre and not inner[1] and not outer[1], got)
        rep.verdict(None if hit is None else hit[0], "occurrences", f.w, f"not every wire is listed once with its variable: {hit and hit[1]}")
        e = f.effects()
        ws = [x for x in sets(e, "wire_permutation") if len(x[0]) == 1] if e is not None else []
        if not ws:
            rep.verdict(None, "cycles", f.w, "the wire permutation is not written position by position")
        for pos, val, ls, some in ws:
            win = f.q.norm(ls[-1][1]) if ls else None
            if win is None or win.op != "windows":
                rep.verdict(None, "cycles", f.w, "cycles are not walked by neighbouring pairs")
                continue
            hs = [h for h, _ in ls]
            two = f.q.norm(win.args[1])
            base = f.q.norm(win.args[0])
            site = f.nm.site(hs[-1])
            a = [x for x in walk_terms(f.q, pos[0]) if x.op == "index" and f.q.norm(x.args[0]).op == "elem" and f.q.norm(x.args[0]).args[1] in site]
            b = f.q.norm(val)
            ends = {f.q.norm(x.args[1]).args[0] for x in a if f.q.norm(x.args[1]).op == "const"}
            to = b.op == "index" and f.q.norm(b.args[0]).op == "elem" and f.q.norm(b.args[0]).args[1] in site and f.q.norm(b.args[1])
            p0 = a[0] if a else None
            al = Names(f.q, f.me, {p0: "w"} if p0 is not None else {}).into(hs)
            try:
                ptx = al.text(pos[0])
            except Unknown as ex:
                rep.verdict(None, "cycles", f.w, str(ex))
                continue
            okp = ptx == P("n*'w.0' + 'w.1'") or ptx == P("'w.0'*n + 'w.1'")
            okv = bool(is_const(two, 2) and len(ends) == 1 and to is not False and to.op == "const" and ends == {0} and to.args[0] == 1)
            pre, around = unless(f.an, f.q, hs[-1], f.oks)
            out = [p for p in pre if not only_empty(f.q, p)]
            rep.verdict(not out, "cycles-all", f.w, f"the occurrences of a variable are not linked when {out[0][0]} {' '.join(pp(x, 4) for x in out[0][1:] if isinstance(x, Term))}" if out else "")
            for d, early in around:
                part = left_out(f.q, d)
                rep.verdict(None if d is None else part == [] and not early and whole_mut(f.q, d), "cycles-variables", f.w, f"only the occurrences of some variables are linked: {pp(d, 4)}")
            rep.verdict(okp and okv, "cycles", f.w, f"the successor of an occurrence is not the next one: position {ptx[:100]}, window {sorted(ends)} to {pp(b, 3)}")
            # the first occurrence is appended so that the last one points to it
            closed = None
            if base.op == "elem":
                s = f.q.norm(base.args[0])
                if s.op == "store":
                    x = f.q.norm(s.args[2])
                    closed = bool(x.op == "push" and f.q.norm(x.args[1]).op == "index" and is_const(f.q.norm(f.q.norm(x.args[1]).args[1]), 0) and f.q.norm(f.q.norm(x.args[1]).args[0]) is f.q.norm(x.args[0]))
                elif s.op == "phi":
                    closed = False
            elif base.op == "push":
                x = f.q.norm(base.args[1])
                closed = x.op == "index" and is_const(f.q.norm(x.args[1]), 0)
            rep.verdict(closed, "cycles-closed", f.w, "the last occurrence of a variable does not point to the first")


def only_empty(q, p):
    """the predicate only holds for lists without elements"""
    if p[0] in ("true", "false") and nm(q.norm(p[1])) == "is_empty":
        return p[0] == "true"
    if p[0] in ("Eq", "Lt", "Le", "Gt", "Ge", "Ne") and all(isinstance(x, Term) for x in p[1:3]):
        at = [x for y in p[1:3] for x in q.iatoms(q.norm(y)) or ()]
        if len(set(at)) == 1 and at[0].op == "len":
            def holds(n):
                a, b = (q.ieval(q.norm(x), {at[0]: n}) for x in p[1:3])
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[p[0]]
            return not any(holds(n) for n in (1, 2, 3, 9))
    return False


def whole_mut(q, d):
    """an iteration by mutable references goes over the whole list"""
    d = q.norm(d)
    while d.op in ("enumerate",):
        d = q.norm(d.args[0])
    return d.op not in ("skip", "take", "stepby", "slice")


def strip_dom(q, d):
    d = q.norm(d)
    while d.op in ("enumerate", "iter"):
        d = q.norm(d.args[0])
    return d


def iscallnm(t, n):
    return t.op == "call" and nm(t) == n


def loops_around(an, n):
    """headers of the loops around a node, innermost first"""
    return [h for _, h in sorted((len(b), h) for h, (b, _) in an.loops().items() if n in b and h != n)]


def polynomials(rep, prog):
    f = Fn(rep, prog, "compute_selector_polynomials", CHK | {"all_selectors"})
    if f.ok:
        for v in f.values():
            p = ifft_of(f.q, v.args[1]) if v.op == "map" else None
            if p is None:
                rep.verdict(None, "selector-polynomials", f.w, "selector polynomials are not a map of the selectors")
                continue
            d = f.q.norm(v.args[0])
            rep.verdict(iscallnm(d, "all_selectors") and p[1].op == "elem" and f.q.norm(p[1].args[0]) is d and own_domain(f, p[0]), "selector-polynomials", f.w, "selector polynomials do not interpolate the selectors of the gates")
    f = Fn(rep, prog, "compute_extended_permutation_polynomials", CHK | {"compute_extended_permutation"})
    if f.ok:
        for v in f.values():
            p = ifft_of(f.q, v.args[1]) if v.op == "map" else None
            if p is None or p[1].op != "slice" or okof(f.q.norm(p[1].args[0])) is None:
                rep.verdict(None, "sigma-polynomials", f.w, "the permutation polynomials are not read")
                continue
            f.dom("sigma-polynomials", [], v.args[0], "0..self.num_wire_types", "one permutation polynomial per wire")
            f.text("sigma-part-from", [v.args[2]], p[1].args[1], "i*n", "first position of a wire in the permutation")
            f.text("sigma-part-to", [v.args[2]], p[1].args[2], "i*n + n", "end of a wire in the permutation")
            rep.verdict(own_domain(f, p[0]), "sigma-domain", f.w, "another domain")
    f = Fn(rep, prog, "compute_wire_polynomials", CHK)
    if f.ok:
        for v in f.values():
            p = ifft_of(f.q, v.args[1]) if v.op == "map" else None
            if p is None or p[1].op != "map":
                rep.verdict(None, "wire-polynomials", f.w, "the wire polynomials are not read")
                continue
            f.dom("wire-polynomials", [], v.args[0], "self.wire_variables[..self.num_wire_types]", "one polynomial per wire")
            f.dom("wire-all", [v.args[2]], p[1].args[0], "self.wire_variables[i]", "all positions of a wire")
            f.text("wire-values", [v.args[2], p[1].args[2]], p[1].args[1], "'self.witness[self.wire_variables[i][j]]'", "value on a wire")
            rep.verdict(own_domain(f, p[0]), "wire-domain", f.w, "another domain")
    f = Fn(rep, prog, "compute_pub_input_polynomial", CHK)
    if f.ok:
        for v in f.values():
            p = ifft_of(f.q, v)
            start = [x for x in walk_terms(f.q, p[1]) if x.op == "fill"] if p else []
            e = None
            if p and p[1].op == "phi":
                for x in f.an.phis[p[1]].values():
                    if f.q.norm(x).op == "fill":
                        start = [f.an.simp(x)]
                        e = effect(f.q, p[1], f.an.simp(x))
            if not e:
                rep.verdict(None, "input-polynomial", f.w, "the public input polynomial is not read")
                continue
            f.text("input-zero", [], start[0].args[0], "0", "value at gates without public input")
            f.text("input-length", [], start[0].args[1], "n", "number of evaluations")
            for it, ls, some in flat(e):
                if it[0] != "set" or len(ls) != 1 or len(it[1]) != 1:
                    rep.verdict(None, "input-polynomial", f.w, "a public input is not read")
                    continue
                hs = [h for h, _ in ls]
                f.dom("input-all", hs, ls[0][1], "self.pub_input_gate_ids", "every public input")
                f.text("input-position", hs, it[1][0], "'self.pub_input_gate_ids[i]'", "position of a public input")
                f.text("input-value", hs, it[2], "'self.witness[self.wire_variables[4][self.pub_input_gate_ids[i]]]'", "value of a public input")
                rep.verdict(not some, "input-each", f.w, "some public inputs are left out")
            rep.verdict(own_domain(f, p[0]), "input-domain", f.w, "another domain")
    for name, sel in (("compute_key_table_polynomial", "table_key"), ("compute_table_dom_sep_polynomial", "table_dom_sep"), ("compute_q_dom_sep_polynomial", "q_dom_sep")):
        f = Fn(rep, prog, name, CHK)
        if f.ok:
            for v in f.values():
                p = ifft_of(f.q, v)
                rep.verdict(None if p is None or gate_map(f, p[1]) is None else gate_map(f, p[1]) == sel and own_domain(f, p[0]), sel.replace("_", "-") + "-polynomial", f.w, f"the polynomial does not interpolate {sel} of the gates")
    f = Fn(rep, prog, "compute_range_table_polynomial", CHK | {"compute_range_table"})
    if f.ok:
        for v in f.values():
            p = ifft_of(f.q, v)
            rep.verdict(None if p is None else okof(p[1]) is not None and nm(okof(p[1])) == "compute_range_table" and own_domain(f, p[0]), "range-polynomial", f.w, "the polynomial does not interpolate the range table")
    f = Fn(rep, prog, "srs_size", CHK)
    if f.ok:
        for v in f.values():
            f.text("reference-size", [], v, "n + 2", "degree of the masked polynomials")
    f = Fn(rep, prog, "eval_domain_size", CHK - {"eval_domain_size"})
    if f.ok:
        for v in f.values():
            f.text("domain-size", [], v, "n", "domain size")


def own_domain(f, d):
    d = f.q.norm(d)
    return d.op == "field" and d.args[1] == "eval_domain" and f.q.norm(d.args[0]) is f.me


def gate_map(f, t):
    """the selector of all gates a list holds"""
    t = f.q.norm(t)
    if t.op != "map":
        return None
    d, b = strip_dom(f.q, t.args[0]), f.q.norm(t.args[1])
    if not (d.op == "field" and d.args[1] == "gates" and f.q.norm(d.args[0]) is f.me):
        return False if left_out(f.q, t.args[0]) is None else None
    if b.op != "call":
        return False if b.op in ("bin", "const") else None
    x = f.q.norm(b.args[2]) if len(b.args) > 2 else None
    return nm(b) if x is not None and x.op == "elem" else None


def products(rep, prog):
    f = Fn(rep, prog, "compute_prod_permutation_polynomial", CHK)
    if f.ok:
        grand(rep, f, "permutation", 0,
              "'last'*prod('0..self.num_wire_types', 'self.witness[self.wire_variables[j][i]]' + gamma + beta*'self.extended_id_permutation[i + j*n]')"
              "*inv(prod('0..self.num_wire_types', 'self.witness[self.wire_variables[j][i]]' + gamma + beta*'self.extended_id_permutation[n*self.wire_permutation[i + j*n].0 + self.wire_permutation[i + j*n].1]'))",
              {2: "beta", 3: "gamma"}, "0.." + P("n - 1"), 0)
    f = Fn(rep, prog, "compute_lookup_prod_polynomial", CHK | {"merged_lookup_wire_value"})
    if f.ok:
        L = "'lookup'"
        g1 = "gamma*(1 + beta)"
        grand(rep, f, "lookup", 0,
              f"'last'*(1 + beta)*(gamma + {L})*({g1} + 'table[i]' + beta*'table[1 + i]')"
              f"*inv(({g1} + 'sorted[i]' + beta*'sorted[1 + i]')*({g1} + 'sorted[-1 + i + n]' + beta*'sorted[i + n]'))",
              {2: "tau", 3: "beta", 4: "gamma", 5: "table", 6: "sorted"}, "0.." + P("n - 2"), 1)


def grand(rep, f, what, k, want, names, dom, tail):
    q = f.q
    for v in f.values():
        p = ifft_of(q, v)
        if p is None:
            rep.verdict(None, f"{what}-product", f.w, "the grand product is not read")
            continue
        rep.verdict(own_domain(f, p[0]), f"{what}-domain", f.w, "another domain")
        t, extra = p[1], 0
        while t.op == "push":
            f.text(f"{what}-end", [], t.args[1], "1", "value at the end of the grand product")
            extra += 1
            t = q.norm(t.args[0])
        if t.op != "phi" or t.args[0] not in f.an.loops():
            rep.verdict(None, f"{what}-product", f.w, "the grand product is not built in a loop")
            continue
        h = t.args[0]
        ins = phi_edges(q, t)
        body = f.an.loops()[h][0]
        init = [q.norm(x) for e, x in ins if e not in body]
        step = [x for e, x in ins if e in body]
        xs = array_of(init[0]) if len(init) == 1 else None
        rep.verdict(None if xs is None else len(xs) == 1, f"{what}-start", f.w, "the grand product does not start with one value")
        if xs:
            f.text(f"{what}-start", [], xs[0], "1", "first value of the grand product")
        rep.verdict(extra == tail, f"{what}-length", f.w, "the number of values of the grand product")
        f.dom(f"{what}-steps", [h], q.loop_domain(h), dom, "number of factors of the grand product")
        for ev in f.an.events:
            if ev.name.endswith("Vec::push") and q.norm(ev.args[0]) is t:
                ok, why = covered(q, unless(f.an, q, nid(ev.node), f.oks), lambda p: False)
                rep.verdict(ok is not False or "only" in why or "part" in why, f"{what}-each", f.w, why)
        if len(step) != 1 or q.norm(step[0]).op != "push":
            e = [effect(q, x, t) for x in step]
            rep.verdict(False if any(y is not None and any(not a for a in y) for y in e) else None, f"{what}-product", f.w, "a factor of the grand product is not always appended")
            continue
        x = q.norm(step[0]).args[1]
        last = [y for y in walk_terms(q, x) if y.op == "index" and q.norm(y.args[0]) is t]
        extra_names = {y: "last" for y in last}
        # the value looked up at this position
        lk = [y for y in walk_terms(q, x) if okof(y) is not None and nm(okof(y)) == "merged_lookup_wire_value"]
        if what == "lookup":
            for y in lk:
                c = okof(y)
                al = Names(q, f.me).into([h])
                ok = None
                try:
                    pos = al.text(c.args[4])
                    ok = pos == "i" and q.norm(c.args[3]) is arg(f.fn, 2) and gate_map(f, c.args[5]) == "q_lookup" and gate_map(f, c.args[6]) == "q_dom_sep"
                except Unknown:
                    pass
                rep.verdict(ok, "lookup-operands", f.w, "the value looked up is not that of this position")
                extra_names[y] = "lookup"
        al = Names(q, {f.me: "self", **{arg(f.fn, i): n for i, n in names.items()}}, extra_names).into([h])
        pos = {is_last(q, y) for y in last}
        rep.verdict(None if None in pos or not pos else pos == {True}, f"{what}-previous", f.w, "the factor is not applied to the last value")
        try:
            got = al.poly(x)
        except Unknown as ex:
            rep.verdict(None, f"{what}-factor", f.w, str(ex))
            continue
        rep.verdict(got == formula(want), f"{what}-factor", f.w, f"factor of the grand product: found {ptext(got)[:400]}, expected {ptext(formula(want))[:400]}")


def is_last(q, t):
    i = q.norm(t.args[1])
    if i.op == "fromend":
        return is_const(q.norm(i.args[0]), 1)
    return False if is_int_const(i) else None


def lookups(rep, prog):
    names = {2: "tau", 3: "range", 4: "key", 5: "sep", 6: "ql", 7: "i"}
    f = Fn(rep, prog, "merged_table_value", CHK)
    if f.ok:
        f.nm = Names(f.q, {f.me: "self", **{arg(f.fn, i): n for i, n in names.items()}})
        for v in f.values():
            f.text("table-value", [], v, "'range[i]' + 'ql[i]'*tau*('sep[i]' + tau*('key[i]' + tau*('value(self.wire_variables[3][i])' + tau*'value(self.wire_variables[4][i])')))", "merged table value")
    f = Fn(rep, prog, "merged_lookup_wire_value", CHK)
    if f.ok:
        f.nm = Names(f.q, {f.me: "self", arg(f.fn, 2): "tau", arg(f.fn, 3): "i", arg(f.fn, 4): "ql", arg(f.fn, 5): "sep"})
        v_ = lambda k: f"'value(self.wire_variables[{k}][i])'"
        for v in f.values():
            f.text("lookup-value", [], v, f"{v_(5)} + 'ql[i]'*tau*('sep[i]' + tau*({v_(0)} + tau*({v_(1)} + tau*{v_(2)})))", "merged lookup value")
    f = Fn(rep, prog, "compute_range_table", CHK)
    if f.ok:
        for v in f.values():
            if v.op != "resize" or f.q.norm(v.args[0]).op != "map":
                rep.verdict(None, "range-table", f.w, "the range table is not read")
                continue
            m = f.q.norm(v.args[0])
            f.dom("range-table-extent", [], m.args[0], "0..range", "entries of the range table")
            f.text("range-table-value", [m.args[2]], m.args[1], "i", "entry of the range table")
            f.text("range-table-length", [], v.args[1], "n", "length of the range table")
            f.text("range-table-padding", [], v.args[2], "0", "padding of the range table")
    f = Fn(rep, prog, "compute_merged_lookup_table", CHK | {"merged_table_value", "compute_range_table"})
    if f.ok:
        n = 0
        for ev in f.an.events:
            if ev.name.split("::")[-1] != "merged_table_value":
                continue
            n += 1
            q = f.q
            a = [q.norm(x) for x in ev.args]
            hs = loops_around(f.an, nid(ev.node))
            sites = hs
            rt = okof(a[2])
            ok = a[1] is arg(f.fn, 2) and rt is not None and nm(rt) == "compute_range_table" and gate_map(f, a[3]) == "table_key" and gate_map(f, a[4]) == "table_dom_sep" and gate_map(f, a[5]) == "q_lookup"
            rep.verdict(bool(ok), "table-operands", f.w, "the merged table is not built from challenge, range table, keys, separators and lookup selectors")
            if len(hs) == 1:
                f.text("table-position", hs, a[6], "i", "position in the merged table")
                f.dom("table-extent", hs, q.loop_domain(hs[0]), "0..n", "entries of the merged table")
            used = [e for e in f.an.events if e.name.endswith("Vec::push") and okof(q.norm(e.args[1])) is q.norm(ev.ret)]
            if used:
                ok, why = covered(q, unless(f.an, q, nid(used[0].node), f.oks), lambda p: False)
                rep.verdict(ok if ok is not False or "only" not in why else True, "table-each", f.w, why)
        if not n:
            rep.verdict(None, "table-operands", f.w, "merged table not read")
    f = Fn(rep, prog, "compute_lookup_sorted_vec_polynomials", CHK | {"merged_lookup_wire_value"})
    if f.ok:
        sorted_vec(rep, f)


def sorted_vec(rep, f):
    q, an = f.q, f.an
    table = arg(f.fn, 3)
    # counting
    cnt = [e for e in an.events if e.name.split("::")[-1] == "merged_lookup_wire_value"]
    for ev in cnt:
        hs = loops_around(an, nid(ev.node))
        a = [q.norm(x) for x in ev.args]
        rep.verdict(a[1] is arg(f.fn, 2) and gate_map(f, a[3]) == "q_lookup" and gate_map(f, a[4]) == "q_dom_sep", "count-operands", f.w, "lookup values are not computed from challenge, lookup selectors and separators")
        if len(hs) == 1:
            f.text("count-position", hs, a[2], "i", "position of the lookup value")
            f.dom("count-extent", hs, q.loop_domain(hs[0]), "0.." + P("n - 1"), "number of lookup values")
    if not cnt:
        rep.verdict(None, "count-operands", f.w, "lookup values not read")
    # by multiplicity
    ext = [e for e in an.events if e.name.split("::")[-1] == "extend" and q.norm(e.args[1]).op == "fill"]
    push = [e for e in an.events if e.name.endswith("Vec::push")]
    ok = None
    for e in ext:
        x = q.norm(e.args[1])
        el, k = q.norm(x.args[0]), q.norm(x.args[1])
        at = list(q.iatoms(k) or ())
        good = el.op == "elem" and q.norm(el.args[0]) is table
        if len(at) == 1:
            mult = at[0].op in ("index", "field") and all(q.ieval(k, {at[0]: y}) == y + 1 for y in (1, 2, 5))
            ok = bool(good and mult)
    rep.verdict(ok, "multiplicity", f.w, "a table value that is looked up k times is not listed k + 1 times")
    if push:
        good = any(q.norm(e.args[1]).op == "elem" and q.norm(q.norm(e.args[1]).args[0]) is table for e in push)
        rep.verdict(good, "once", f.w, "a table value that is not looked up is not listed once")
    else:
        some = ext and all(unless(an, q, nid(e.node), f.oks)[0] for e in ext)
        rep.verdict(False if some else None, "once", f.w, "a table value that is not looked up is left out")
    rem = [e for e in an.events if e.name.split("::")[-1] in ("remove", "take", "insert") and "Map" in e.name or e.name.split("::")[-1] == "remove_entry"]
    rep.verdict(True if rem else None if any(e.name.split("::")[-1] in ("get_mut", "entry", "drain", "take") and len([x for x in an.events if x.name.split('::')[-1] == 'entry']) > 1 for e in an.events) else False,
                "repeat-once", f.w, "the lookups of a value that is several times in the table are listed at each of them")
    gs = an.guards(f.oks)
    ok = False
    for g in gs:
        p = q.accept(g)
        if g.must and p[0] == "Eq":
            try:
                d = nadd(f.nm.into([]).poly(p[1]), f.nm.poly(p[2]), -1)
            except Unknown:
                tx = [pp(x, 3) for x in p[1:3]]
                if any(x.op == "len" and q.norm(x.args[0]).op == "phi" for x in map(q.norm, p[1:3])):
                    other = [x for x in map(q.norm, p[1:3]) if x.op != "len"]
                    try:
                        ok = ok or bool(other) and f.nm.text(other[0]) == P("2*n - 1")
                    except Unknown:
                        ok = None
    rep.verdict(ok, "sorted-length", f.w, "lookups outside of the table are not refused")
    for v in f.values():
        if v.op != "agg" or v.args[0] != "tuple" or len(v.args) != 6:
            rep.verdict(None, "halves", f.w, "not read")
            continue
        whole = q.norm(v.args[3])
        for k, lo, hi in ((4, "0", "n"), (5, "n - 1", None)):
            p = ifft_of(q, v.args[k])
            if p is None or p[1].op != "slice":
                rep.verdict(None, "halves", f.w, "not read")
                continue
            rep.verdict(q.norm(p[1].args[0]) is whole and own_domain(f, p[0]), "halves", f.w, "a half is not a part of the sorted vector")
            f.text("half-from", [], p[1].args[1], lo, "start of a half of the sorted vector")
            end = q.norm(p[1].args[2])
            if hi:
                f.text("half-to", [], end, hi, "end of the first half of the sorted vector") if end.op != "end" else rep.verdict(False, "half-to", f.w, "the first half does not end after n values")
            else:
                rep.verdict(end.op == "end" or None, "half-to", f.w, "end of the second half")


def finalisation(rep, prog):
    f = Fn(rep, prog, "pad", CHK)
    if f.ok:
        e = f.effects()
        padding(rep, f, e, "n", "gates_from")
    f = Fn(rep, prog, "rearrange_gates", CHK | {"q_lookup"})
    if f.ok:
        rearranged(rep, f)
    f = Fn(rep, prog, "finalize_for_arithmetization", CHK | {"pad", "rearrange_gates", "compute_wire_permutation", "compute_extended_id_permutation"})
    if f.ok:
        q = f.q
        steps(rep, f, ("pad", "rearrange_gates", "compute_wire_permutation"))
        steps(rep, f, ("compute_extended_id_permutation",))
        new = [e for e in f.an.events if e.name.split("::")[-1] in ("new", "new_domain") and "Domain" in e.name]
        if len(new) != 1:
            rep.verdict(None, "slots", f.w, "the creation of the domain is not read")
        for ev in new[:1]:
            byk = {}
            for cs, x in cases_of(q, ev.args[0]):
                ks = {p[0] == "true" for p in cs if isinstance(p[1], Term) and nm(q.norm(p[1])) == "support_lookup" and p[0] in ("true", "false")}
                for kk in (ks or {True, False}):
                    byk.setdefault(kk, []).append(x)
            for lookup in (False, True):
                for x in byk.get(lookup, []):
                    at = list(q.iatoms(q.norm(x)) or ())
                    env, bad = {}, False
                    kinds = {}
                    for a in at:
                        kd = slot_kind(f, a)
                        if kd is None:
                            bad = True
                        kinds[a] = kd
                    if bad or not at:
                        rep.verdict(None, "slots", f.w, f"number of slots not read: {pp(x, 4)}")
                        continue
                    ok = True
                    for g, r, w, t in ((100, 4, 3, 2), (5, 64, 10, 7), (5, 8, 90, 7), (2, 16, 0, 0), (70, 64, 60, 10)):
                        val = q.ieval(q.norm(x), {a: {"gates": g, "range": r, "rangewire": w, "table": t}[k] for a, k in kinds.items()})
                        need = g if not lookup else max(g, r + t + 1, w + t + 1)
                        if val is None:
                            ok = None
                            break
                        if val < need:
                            ok = False
                            break
                    rep.verdict(ok, "slots", f"{f.w} {'with' if lookup else 'without'} lookup", "the domain is smaller than the gates, or than range entries, table entries and one more")
    f = Fn(rep, prog, "finalize_for_mergeable_circuit", CHK | {"finalize_for_arithmetization", "compute_extended_id_permutation"})
    if f.ok:
        steps(rep, f, ("finalize_for_arithmetization",))
        steps(rep, f, ("compute_extended_id_permutation",))
        mergeable(rep, f)


def steps(rep, f, names):
    """the circuit passes these functions, in this order and the first one with the new domain"""
    q = f.q
    before = None
    for n in names:
        evs = [e for e in f.an.events if e.name.split("::")[-1] == n]
        if not evs:
            rep.verdict(False, "steps", f"{f.w} {n}", "a step of the finalisation is missing")
            return
        pre, ls = unless(f.an, q, nid(evs[0].node), f.oks)
        done = [p for p in pre if not (p[0] == "true" and nm(q.norm(p[1])) == "is_finalized" or p[0] == "Ne" and any(nm(q.norm(x)) == "size" for x in p[1:3] if isinstance(x, Term)))]
        rep.verdict(not done, "steps", f"{f.w} {n}", f"a step of the finalisation is left out when {done[0][0]} {pp(done[0][1], 5)}" if done else "")
        on = past(q, evs[0].args[0])
        if n != "finalize_for_arithmetization":
            rep.verdict(any(x.op == "store" and any(y[-1] == "eval_domain" for y in x.args[1]) for x in on), "steps-domain", f"{f.w} {n}", "a step of the finalisation comes before the domain is set")
        if before:
            rep.verdict(any(x.op == "call" and nm(x) == before for x in on), "steps-order", f"{f.w} {n}", f"it is done before {before}")
        before = n


def past(q, t):
    """the states a circuit has been in"""
    seen, todo = [], [q.an.simp(t)]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.append(x)
        if x.op == "phi":
            todo += [q.an.simp(y) for y in q.an.phis.get(x, {}).values() if y.op != "undef"]
        elif x.op == "store":
            todo.append(q.an.simp(x.args[0]))
        elif x.op == "out" and isinstance(x.args[1], int):
            todo += [x.args[0], q.an.simp(x.args[0].args[2 + x.args[1]])]
    return seen


def cases_of(q, t):
    """[(predicates, value)] of a value that depends on branches"""
    t = q.norm(t)
    if t.op != "phi":
        return [([], t)]
    out = []
    for p, v in q.an.phis.get(t, {}).items():
        if v.op == "undef":
            continue
        here = preds_at(q, p)
        n = q.an.nodes[p]
        if n.cond is not None and len(n.succ) > 1 and t.args[0] in n.succ:
            l = q.labels(n, n.succ[t.args[0]])
            if l is not None:
                here = here + as_preds(q, [(n.cond[0], l)])
        for cs, x in cases_of(q, v):
            out.append((here + cs, x))
    return out


def slot_kind(f, a):
    q = f.q
    c = okof(a)
    if c is not None and nm(c) == "range_size":
        return "range"
    if a.op == "len":
        x = q.norm(a.args[0])
        if x.op == "field" and x.args[1] == "gates":
            return "gates"
        if x.op == "index" and q.norm(x.args[0]).op == "field" and q.norm(x.args[0]).args[1] == "wire_variables" and is_const(q.norm(x.args[1]), 5):
            return "rangewire"
    if a.op == "field" and a.args[1] == "num_table_elems":
        return "table"
    return None


def padding(rep, f, e, size, kind):
    q = f.q
    if e is None:
        return rep.verdict(None, "padding", f.w, "padding not read")
    gates = [x for x in sets(e, "gates") if x[1].op == "push"]
    pads = [x for x in gates if any(y.op == "agg" and str(y.args[0]).endswith("PaddingGate") for y in walk_terms(q, x[1].args[1]))]
    if not gates and not sets(e, "gates"):
        rep.verdict(False, "padding-gates", f.w, "no padding gates are added")
    for pos, val, ls, some in gates:
        rep.verdict((pos, val, ls, some) in pads and not some, "padding-gates", f.w, "something else than a padding gate is added, or not always")
        if len(ls) == 1:
            f.dom("padding-count", [ls[0][0]], ls[0][1], {"gates_from": ["#self.gates..n"], "n": ["0..n"]}[kind], "number of padding gates")
    wires = [x for x in sets(e, "wire_variables") if len(x[0]) == 1 and x[1].op == "resize"]
    if not wires:
        rep.verdict(None if sets(e, "wire_variables") else False, "padding-wires", f.w, "wires are not padded")
    for pos, val, ls, some in wires:
        hs = [h for h, _ in ls]
        f.dom("padding-wires", hs, ls[0][1], "0..self.num_wire_types", "wires that are padded") if len(ls) == 1 else rep.verdict(None, "padding-wires", f.w, "not read")
        f.text("padding-wire", hs, pos[0], "i", "wire that is padded")
        f.text("padding-length", hs, val.args[1], size, "length of a padded wire")
        f.text("padding-variable", hs, val.args[2], "0", "variable on a padded wire")
        rep.verdict(not some, "padding-each", f.w, "some wires are not padded")


def rearranged(rep, f):
    q, an = f.q, f.an
    e = f.effects()
    if e is None:
        return rep.verdict(None, "moves", f.w, "moves of gates are not read")

    def swap(v):
        v = q.norm(v)
        return tuple(q.norm(x) for x in v.args[0].args[3:5]) if v.op == "out" and v.args[0].op == "call" and nm(v.args[0]) == "swap" else None

    def level(alts, loops):
        """gate moves with the wire moves of the same alternative"""
        for a in alts:
            g = [swap(it[2]) for it in a if it[0] == "set" and it[1] == ("gates",)]
            ws = []
            for it in a:
                if it[0] == "loop":
                    for it2, ls, some in flat(it[3]):
                        if it2[0] == "set" and it2[1][:1] == ("wire_variables",) and len(it2[1]) == 2 and not ls:
                            ws.append((swap(it2[2]), it[1], it[2], it2[1][1], ls, some))
            ids = [it for it in a if it[0] == "set" and it[1][:1] == ("pub_input_gate_ids",)]
            if g or any(w[0] is not None for w in ws):
                yield loops, g, ws, ids, a
            for it in a:
                if it[0] == "loop":
                    yield from level(it[3], loops + ((it[1], it[2], it[3]),))
    seen = []
    n = 0
    for loops, g, ws, ids, a in level(e, ()):
        key = (g, tuple(h for h, _, _ in loops))
        if key in seen:
            continue
        seen.append(key)
        n += 1
        over = q.norm(loops[-1][1]) if loops and loops[-1][1] is not None else None
        io = bool(ids) or over is not None and "pub_input_gate_ids" in pp(over, 6)
        where = "public inputs" if io else "lookups"
        if not g:
            rep.verdict(False, "moves-wires", f"{f.w} {where}", "wires are moved without their gate")
        if io and not ids:
            rep.verdict(False, "inputs-recorded", f.w, "the new position of a public input gate is not recorded")
        for s in g:
            if s is None:
                rep.verdict(None, "moves-wires", f"{f.w} {where}", "a move of a gate is not read")
                continue
            good = []
            for s2, h, d, k, ls, some in ws:
                if s2 is None or some or ls:
                    continue
                al = f.nm.into([x for x, _, _ in loops] + [h])
                l = "ijkl"[len(loops)]
                try:
                    same = same_pos(q, al, s, s2)
                    good.append(same and al.domtext(d) in ("0..5",) and al.text(k) == l)
                except Unknown:
                    good.append(None)
            rep.verdict(True if True in good else None if None in good else False, "moves-wires", f"{f.w} {where}", "a gate is moved without all of its wires")
            al = f.nm.into([x for x, _, _ in loops])
            if io:
                try:
                    ab = [pstrip(al.text(x)) for x in s]
                except Unknown as ex:
                    rep.verdict(None, "inputs-first", f.w, str(ex))
                    continue
                rep.verdict(sorted(ab) == sorted(["i", "self.pub_input_gate_ids[i]"]), "inputs-first", f.w, f"the i-th public input gate is not moved to position i: {ab}")
                for it in ids[:1]:
                    try:
                        rep.verdict(al.text(it[2]) == "i", "inputs-recorded", f.w, "the new position of a public input gate is not recorded")
                    except Unknown as ex:
                        rep.verdict(None, "inputs-recorded", f.w, str(ex))
            else:
                lookup_move(rep, f, loops, s)
    rep.verdict(n >= 2 or None, "moves", f.w, "moves of public input and lookup gates are not read")
    # when moves are left out
    for ev in an.events:
        if ev.name.split("::")[-1] != "swap":
            continue
        x = q.norm(ev.args[0])
        if not (x.op == "field" and x.args[1] == "gates"):
            continue
        pre, ls = unless(an, q, nid(ev.node), f.oks)
        hs = loops_around(an, nid(ev.node))[::-1]
        al = f.nm.into(hs)
        for p in pre:
            ok = None
            if p[0] in ("false", "true") and nm(q.norm(p[1])) == "support_lookup":
                ok = p[0] == "false"
            elif p[0] in ("Le", "Lt", "Ge", "Gt", "Eq", "Ne"):
                # only a gate that is in place stays: public inputs are recorded in increasing order, so none is before its place
                try:
                    d = {tuple(sorted(pstrip(x) for x in m)): c for m, c in nadd(al.poly(p[1]), al.poly(p[2]), -1).items()}
                    io = "self.pub_input_gate_ids[i]"
                    if set(d) <= {("i",), (io,), ()}:
                        val = lambda i, x: d.get(("i",), 0) * i + d.get((io,), 0) * x + d.get((), 0)
                        cmp = {"Le": lambda v: v <= 0, "Lt": lambda v: v < 0, "Ge": lambda v: v >= 0, "Gt": lambda v: v > 0, "Eq": lambda v: v == 0, "Ne": lambda v: v != 0}[p[0]]
                        ok = not any(cmp(val(i, i + k)) for i in (0, 3) for k in (1, 2, 7))
                except Unknown:
                    pass
            rep.verdict(ok, "moves-skipped", f.w, f"a gate is left in place when {p[0]} {' '.join(pp(x, 4) for x in p[1:] if isinstance(x, Term))}")


def pstrip(s):
    return s.replace("'", "")


def same_pos(q, al, s, t):
    return [pstrip(al.text(x)) for x in s] == [pstrip(al.text(x)) for x in t] or [pstrip(al.text(x)) for x in s] == [pstrip(al.text(x)) for x in t][::-1]


def lookup_move(rep, f, loops, s):
    """lookup gates are exchanged with gates of the last slots but one that are none"""
    q = f.q
    h, d, _ = loops[-1]
    d = q.norm(d)
    if d.op != "zip":
        return rep.verdict(None, "lookup-slots", f.w, "targets of lookup gates are not read")
    al = f.nm.into([h])
    res = []
    for x in d.args[:2]:
        x = q.norm(x)
        if x.op != "filter":
            return rep.verdict(None, "lookup-slots", f.w, "targets of lookup gates are not read")
        try:
            res.append((pstrip(al.domtext(x.args[0])), x.args[1]))
        except Unknown as ex:
            return rep.verdict(None, "lookup-slots", f.w, str(ex))
    rear = [r for r in res if r[0] != "0..n"]
    rep.verdict(len(rear) == 1 and rear[0][0] == P("n - 1 - 'self.num_table_elems'") + ".." + P("n - 1"), "lookup-slots", f.w, f"lookup gates do not end up in the last slots but one: {[r[0] for r in res]}")


def mergeable(rep, f):
    q, an = f.q, f.an
    e = f.effects()
    if e is None:
        return rep.verdict(None, "mergeable", f.w, "not read")
    dom = sets(e, "eval_domain")
    for pos, val, ls, some in dom:
        c = [x for x in walk_terms(q, val) if iscallnm(x, "new")]
        if c:
            f.text("double-domain", [], c[0].args[2], "2*n", "domain of a circuit for merging")
            break
    else:
        rep.verdict(None if dom else False, "double-domain", f.w, "the domain is not doubled")
    padding(rep, f, e, "2*n", "n")
    # kinds
    for a in e:
        fl = list(flat([a]))
        rev = any(it[0] == "set" and it[1] == ("gates",) and iscallnm(outcall(q, it[2]), "reverse") for it, _, _ in fl)
        perm = [it for it, ls, _ in fl if it[0] == "set" and it[1] == ("wire_permutation",)]
        w = f.w + (" reversed" if rev else " straight")
        if rev:
            ws = [(it, ls) for it, ls, _ in fl if it[0] == "set" and it[1][:1] == ("wire_variables",) and len(it[1]) == 2 and iscallnm(outcall(q, it[2]), "reverse")]
            if not ws:
                rep.verdict(False, "reversed-wires", w, "gates are reversed but not their wires")
            for it, ls in ws:
                f.dom("reversed-wires", [h for h, _ in ls], ls[0][1], "0..self.num_wire_types", "wires that are reversed")
                f.text("reversed-wire", [h for h, _ in ls], it[1][1], "i", "wire that is reversed")
            io = [(it, ls) for it, ls, _ in fl if it[0] == "set" and it[1][:1] == ("pub_input_gate_ids",)]
            if not io:
                rep.verdict(False, "reversed-inputs", w, "gates are reversed but not the positions of public inputs")
            for it, ls in io:
                al = f.nm.into([h for h, _ in ls])
                try:
                    got = al.text(it[2]).replace("self'", "self")
                    rep.verdict(got == P("2*n - 1 - 'self.pub_input_gate_ids[i]'"), "reversed-inputs", w, f"position of a public input after reversal: {got}")
                except Unknown as ex:
                    rep.verdict(None, "reversed-inputs", w, str(ex))
        if not perm:
            rep.verdict(None, "half-permutation", w, "permutation of the doubled circuit is not read")
        for it in perm[-1:]:
            ph = it[2]
            if ph.op != "phi":
                rep.verdict(None, "half-permutation", w, "permutation of the doubled circuit is not read")
                continue
            init = [an.simp(v) for p, v in an.phis[ph].items() if p not in an.loops().get(ph.args[0], ((), ()))[0]]
            pe = effect(q, ph, init[0]) if len(init) == 1 else None
            if not pe:
                rep.verdict(None, "half-permutation", w, "not read")
                continue
            fl0 = q.norm(init[0])
            if fl0.op == "fill":
                f.text("half-permutation-length", [], fl0.args[1], "2*n*'self.num_wire_types'", "length of the doubled permutation")
                x = q.norm(fl0.args[0])
                if x.op == "agg":
                    f.text("half-permutation-undefined", [], x.args[3], "'self.num_wire_types'", "wires of the other half have no successor")
            for it2, ls, some in flat(pe):
                if it2[0] != "set" or len(it2[1]) != 1 or len(ls) != 2:
                    rep.verdict(None, "half-permutation", w, "not read")
                    continue
                hs = [h for h, _ in ls]
                f.dom("half-permutation-wires", hs, ls[0][1], "0..self.num_wire_types", "wires of the doubled permutation")
                f.dom("half-permutation-gates", hs, ls[1][1], "0..n", "gates of the doubled permutation")
                rep.verdict(not some, "half-permutation-each", w, "some positions are left out")
                src = "self.wire_permutation[i*n + j]"
                f.text("half-permutation-position", hs, it2[1][0], "2*i*n + j" if not rev else "2*i*n + 2*n - 1 - j", "position in the doubled permutation" + (" (reversed)" if rev else ""))
                v = q.norm(it2[2])
                if rev:
                    if v.op == "agg" and v.args[0] == "tuple":
                        f.text("half-permutation-wire", hs, v.args[3], f"'{src}.0'", "wire of the successor")
                        f.text("half-permutation-gate", hs, v.args[4], f"2*n - 1 - '{src}.1'", "gate of the successor")
                    else:
                        rep.verdict(False if v.op == "index" else None, "half-permutation-gate", w, "gate of the successor is not reversed")
                else:
                    f.text("half-permutation-successor", hs, v, f"'{src}'", "successor in the doubled permutation")
    # which kind is reversed
    for ev in an.events:
        if ev.name.split("::")[-1] == "reverse" and q.norm(ev.args[0]).op == "field" and q.norm(ev.args[0]).args[1] == "gates":
            ks = [k for k in (kind_ab(q, p) for p in preds_at(q, nid(ev.node))) if k]
            rep.verdict(ks[0] == "TypeB" if ks else None, "reversed-kind", f.w, "the gates of circuits of the first kind are reversed")


def kind_ab(q, p):
    for a, b in ((p[1], p[2]), (p[2], p[1])) if len(p) > 2 and all(isinstance(x, Term) for x in p[1:3]) else ():
        a, b = q.norm(a), q.norm(b)
        if b.op == "disc" and a.op == "const":
            d = dict((int(k), x) for k, x in b.args[1])
            if set(d.values()) == {"TypeA", "TypeB"}:
                v = d[a.args[0]]
                return v if p[0] == "Eq" else {"TypeA": "TypeB", "TypeB": "TypeA"}[v] if p[0] == "Ne" else None
        if b.op == "agg" and b.args[1] in ("TypeA", "TypeB"):
            return b.args[1] if p[0] == "Eq" else {"TypeA": "TypeB", "TypeB": "TypeA"}[b.args[1]] if p[0] == "Ne" else None
    if p[0] == "is" and p[2] in (frozenset({"TypeA"}), frozenset({"TypeB"})):
        return next(iter(p[2]))
    return None


def outcall(q, t):
    t = q.norm(t)
    return t.args[0] if t.op == "out" else t


def merging(rep, prog):
    f = Fn(rep, prog, "merge", CHK)
    if not f.ok:
        return
    q, an = f.q, f.an
    other = arg(f.fn, 2)
    f.nm = Names(q, {f.me: "self", other: "other"})
    f.nm.size = {("h",): 2}
    for v in f.values():
        names = field_names(prog, v.args[0]) if v.op == "agg" else None
        if not names:
            rep.verdict(None, "merge", f.w, "not read")
            continue
        d = dict(zip(names, [q.norm(x) for x in v.args[3:]]))
        f.text("merge-variables", [], d["num_vars"], "'self.num_vars' + 'other.num_vars'", "number of variables")
        for fld in ("witness", "pub_input_gate_ids"):
            x = d[fld]
            xs = array_of(q.norm(x.args[0])) if x.op == "concat" else None
            if xs is None:
                rep.verdict(None, "merge-" + fld.replace("_", "-"), f.w, "not read")
                continue
            try:
                got = [f.nm.into([]).name(y) for y in xs]
                rep.verdict(got == [f"self.{fld}", f"other.{fld}"], "merge-" + fld.replace("_", "-"), f.w, f"{fld} of the merged circuit: {got}")
            except Unknown as ex:
                rep.verdict(None, "merge-" + fld.replace("_", "-"), f.w, str(ex))
        for fld in ("num_wire_types", "eval_domain", "extended_id_permutation"):
            try:
                got = f.nm.into([]).name(d[fld])
                rep.verdict(got in (f"self.{fld}", f"other.{fld}"), "merge-" + fld.replace("_", "-"), f.w, f"{fld} of the merged circuit: {got}")
            except Unknown as ex:
                rep.verdict(None, "merge-" + fld.replace("_", "-"), f.w, str(ex))
        ph = d["wire_permutation"]
        init = [an.simp(x) for p, x in an.phis[ph].items() if p not in an.loops().get(ph.args[0], ((), ()))[0]] if ph.op == "phi" else []
        pe = effect(q, ph, init[0]) if len(init) == 1 else None
        if not pe:
            rep.verdict(None, "merge-permutation", f.w, "not read")
        else:
            got = set()
            good = None
            for it, ls, some in flat(pe):
                if it[0] != "set" or len(it[1]) != 1 or len(ls) != 2:
                    good = "odd"
                    continue
                al = f.nm.into([h for h, _ in ls])
                try:
                    got.add((al.domtext(ls[0][1]), al.domtext(ls[1][1]), al.text(it[1][0]), al.name(it[2]), some))
                except Unknown as ex:
                    good = "odd"
            h = [("0..self.num_wire_types", "0..h", P("2*h*i + j"), "self.wire_permutation[2*h*i + j]", False),
                 ("0..self.num_wire_types", "0..h", P("2*h*i + j + h"), "other.wire_permutation[h + 2*h*i + j]", False)]
            rep.verdict(None if good == "odd" else got == set(h), "merge-permutation", f.w, f"permutation of the merged circuit: {sorted(map(str, got))[:3]}")
    # gates and wires
    g, w = [], []
    for ev in an.events:
        if not ev.name.endswith("Vec::push"):
            continue
        x, v = q.norm(ev.args[0]), q.norm(ev.args[1])
        hs = loops_around(an, nid(ev.node))[::-1]
        al = f.nm.into(hs)
        try:
            doms = tuple(al.domtext(q.loop_domain(h)) for h in hs)
            if x.op == "elem":
                w.append((doms[0], doms[1], al.text(v)))
            elif nm(v) in ("clone_box", "clone") or v.op == "elem":
                g.append((doms, al.name(v.args[2] if v.op == "call" else v)))
        except Unknown as ex:
            (w if x.op == "elem" else g).append(None)
    want_g = [(("self.gates[..h]",), "self.gates[i]"), (("other.gates[h..]",), "other.gates[h + i]")]
    rep.verdict(None if None in g or not g else g == want_g, "merge-gates", f.w, f"gates of the merged circuit: {g}")
    want_w = [("self.gates[..h]", "local[..self.num_wire_types]", "self.wire_variables[j][i]"), ("other.gates[h..]", "local[..self.num_wire_types]", "other.wire_variables[j][h + i] + self.num_vars")]
    rep.verdict(None if None in w or not w else w == want_w, "merge-wires", f.w, f"wires of the merged circuit: {w}")
