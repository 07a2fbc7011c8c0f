"""Circuits: what is recorded, what the satisfiability check covers, and when a circuit may be changed or arithmetised."""
from common import *
from core import check
from plonk_rules import partial

C = "jf_relation"
PC = "PlonkCircuit"
PROTECTED = {"num_vars", "gates", "wire_variables", "pub_input_gate_ids", "witness"}


def okish(q, n):
    t = q.norm(n.exit)
    return not (t.op == "agg" and t.args[1] == "Err")


class Read:
    """values of a circuit method in terms of gates, wires and witnesses of $self"""
    def __init__(self, an, q, me):
        self.an, self.q, self.me = an, q, me

    def fld(self, t, name):
        t = self.q.norm(t)
        while t.op in ("store",) and name not in str(t.args[1]):
            t = self.q.norm(t.args[0])
        return t.op == "field" and t.args[1] == name and self.q.norm(t.args[0]) is self.me

    def pos(self, t):
        """position of a gate: the loop that runs over all of them, or (loop, "io") for the gate of a public input"""
        t = self.q.norm(t)
        if t.op == "idx":
            return ("at", t.args[1])
        if t.op == "ridx":
            return ("at" if is_const(self.q.norm(t.args[0]), 0) else "part", t.args[2])
        if t.op == "elem" and self.fld(t.args[0], "pub_input_gate_ids"):
            return ("io", t.args[1])
        if t.op == "index" and self.fld(t.args[0], "pub_input_gate_ids"):
            p = self.pos(t.args[1])
            return ("io", p[1]) if p and p[0] == "at" else None
        return None

    def gate(self, t):
        t = self.q.norm(t)
        if t.op == "elem" and self.fld(t.args[0], "gates"):
            return ("at", t.args[1])
        if t.op == "index" and self.fld(t.args[0], "gates"):
            return self.pos(t.args[1])
        return None

    def sel(self, t):
        """(selector, gate)"""
        t = self.q.norm(t)
        if t.op == "call" and len(t.args) == 3:
            g = self.gate(t.args[2])
            return (nm(t), g) if g else None
        return None

    def var(self, t):
        """(wire, gate) of a variable"""
        t = self.q.norm(t)
        if t.op == "call" and nm(t) == "wire_variable" and len(t.args) == 5 and self.q.norm(t.args[2]) is self.me:
            k, p = self.q.norm(t.args[3]), self.pos(t.args[4])
        elif t.op == "index":
            w = self.q.norm(t.args[0])
            if w.op != "index" or not self.fld(w.args[0], "wire_variables"):
                return None
            k, p = self.q.norm(w.args[1]), self.pos(t.args[1])
        elif t.op == "elem":
            w = self.q.norm(t.args[0])
            if w.op != "index" or not self.fld(w.args[0], "wire_variables"):
                return None
            k, p = self.q.norm(w.args[1]), ("at", t.args[1])
        else:
            return None
        return (k.args[0], p) if k.op == "const" and p else None

    def wit(self, t):
        """(wire, gate) whose value a value is"""
        t = self.q.norm(t)
        c = okof(t)
        if c is not None and c.op == "call" and nm(c) == "witness":
            return self.var(c.args[3])
        if t.op == "index" and self.fld(t.args[0], "witness"):
            return self.var(t.args[1])
        return None

    def zero(self, t):
        t = self.q.norm(t)
        return is_const(t, 0) or t.op == "call" and nm(t) == "zero" and len(t.args) == 2


def guard_on(an, q, exits, t, want):
    """nodes that only let the function go on when the call t gave what is wanted"""
    out = []
    for g in an.guards(exits):
        p = q.accept(g)
        if want == "Ok" and p[0] == "is" and p[2] == frozenset({"Ok"}) and p[1] is t:
            out.append(g.node)
        elif want is True and p[0] == "true" and p[1] is t:
            out.append(g.node)
    return out


def nid(n):
    return n if isinstance(n, int) else n.id


def preds_at(q, node):
    """predicates that hold at a node"""
    return as_preds(q, q.node_conds(node))


def as_preds(q, conds):
    out = []
    for c, l in conds:
        c = q.norm(c)
        every = {int(k) for k, _ in c.args[1]} if c.op == "disc" else {0, 1}
        out.append(q.pred_of(c, every - set(l[1]) if isinstance(l, tuple) else {l}))
    return out


def not_ultra(q, p):
    """the circuit is not one that supports lookups"""
    if p[0] in ("Ne", "Eq"):
        for a, b in (p[1:], p[:0:-1]):
            if b.op == "disc" and b.args[0].op == "field" and b.args[0].args[1] == "plonk_type" and a.op == "const":
                v = dict((int(k), x) for k, x in b.args[1]).get(a.args[0])
                return v == ("UltraPlonk" if p[0] == "Ne" else "TurboPlonk")
            if a.op == "field" and a.args[1] == "plonk_type" and b.op == "agg":
                return b.args[1] == ("UltraPlonk" if p[0] == "Ne" else "TurboPlonk")
    if p[0] == "is" and isinstance(p[1], Term) and p[1].op == "field" and p[1].args[1] == "plonk_type":
        return p[2] == frozenset({"TurboPlonk"})
    return p[0] == "false" and isinstance(p[1], Term) and nm(p[1]) == "support_lookup"


def covered(q, around, skip, own=None):
    """(ok, text): nothing but the admissible conditions leads around, and the loops run over everything; a failure of the call itself may end them"""
    preds, loops = around
    if own is not None:
        failed = lambda c: q.norm(c).op == "disc" and q.norm(q.norm(c).args[0]) is own or q.norm(c) is own
        preds = [p for p in preds if not (p[0] in ("is", "false") and isinstance(p[1], Term) and q.norm(p[1]) is own)]
        loops = [(d, [c for c in e if not failed(c)]) for d, e in loops]
    for p in preds:
        if not skip(p):
            return False, f"it is left out when {p[0]} {' '.join(pp(x, 5) for x in p[1:] if isinstance(x, Term))}"
    for d, early in loops:
        if d is None:
            return None, "the extent of the loop is not known"
        if early:
            return False, f"the loop may stop early ({pp(early[0], 4)})"
        left = left_out(q, d)
        if left is None:
            return False, f"only {pp(d, 5)} is covered"
        for p in left:
            if not skip(p):
                return False, f"elements are left out when {p[0]} {' '.join(pp(x, 5) for x in p[1:] if isinstance(x, Term))}"
    return True, ""


def left_out(q, d):
    """predicates on the elements that an iteration leaves out; None when it leaves out others"""
    d = q.norm(d)
    if d.op == "zip":
        a, b = left_out(q, d.args[0]), left_out(q, d.args[1])
        return None if a is None or b is None else a + b
    if d.op in ("enumerate", "map", "rev", "itermut"):
        return left_out(q, d.args[0]) if d.op != "itermut" else []
    if d.op == "filter":
        a = left_out(q, d.args[0])
        return None if a is None else a + [q.pred_of(q.norm(d.args[1]), {0})]
    if d.op == "take":
        n = q.norm(d.args[1])
        whole = n.op == "len" and any(x is q.norm(n.args[0]) for x in walk_terms(q, d.args[0]))
        return left_out(q, d.args[0]) if whole else None
    if d.op in ("skip", "stepby", "slice", "chunks", "flatten", "chain"):
        return None
    if partial(q, d):
        return None
    return []


@check("C05", [C], """Satisfiability check. In the check of a whole circuit the calls that check one gate, one range-checked variable and one lookup are located with
their operands, expressed as positions (gate of the i-th public input, i-th gate), selectors and wire values. For each the analysis derives the conditions under which it
is skipped although the function goes on to succeed (branches that lead around it, loops that end early or run over a part only) and demands: nothing for the gates of public
inputs, whose value is the public input of the same position; only `is a public input gate` for the others, whose public input is zero; only `not an UltraPlonk circuit` for range
checks, over all variables of the range wire; additionally `q_lookup = 0` for lookups. The set that lookups are searched in only receives the zero row and the table rows (table domain
separator, key, wires 3 and 4) of lookup gates; the row searched is (lookup domain separator, wires 0, 1, 2) of the same gate. Range checks compare with the range size.
The recording functions are summarised as effects on the circuit: value pushed and index returned by variable creation, wires and gate pushed by gate insertion, position and gate of
public inputs, variable appended to the range wire; the reported public inputs are the values on wire 4 of those gates in order; a new circuit has variables 0 and 1 constrained to
the constants 0 and 1.""", floor=12)
def c05(rep, prog):
    fn = rep.anchor(prog, C, "check_circuit_satisfiability", PC)
    if fn:
        satisfiability(rep, prog, fn)
    recording(rep, prog)


def satisfiability(rep, prog, fn):
    ops = {"check_gate", "check_range_gate", "witness", "wire_variable", "is_io_gate"}
    an, q = rep.analyse(prog, fn, opaque=lambda g: g.name in ops or g.intrait)
    r = Read(an, q, arg(fn, 1))
    pi = arg(fn, 2)
    w = fn.path
    oks = [n for n in an.exits() if okish(q, n)]
    eq = [g for g in an.guards(oks) if g.must and q.accept(g)[0] == "Eq"]
    count = lambda t: t.op == "len" and r.fld(t.args[0], "pub_input_gate_ids")
    lens = any({("pi" if x.op == "len" and q.norm(x.args[0]) is pi else "io" if count(q.norm(x)) else None) for x in map(q.norm, q.accept(g)[1:])} == {"pi", "io"} for g in eq)
    rep.verdict(lens, "input-count", w, "the number of public inputs is not compared with that of the circuit")

    def checked(name, facet, match, skip, want, msg, strict=True):
        """some event satisfies match and is not skipped"""
        evs = [e for e in an.events if e.name.split("::")[-1] == name]
        hits = [e for e in evs if match(e)]
        if not hits:
            if evs and any(match(e) is None for e in evs):
                return rep.unk(facet, w, f"operands of {name} not read")
            return rep.verdict(False, facet, w, msg)
        best = None
        for e in hits:
            nodes = guard_on(an, q, oks, q.norm(e.ret), want) if want is not None else [e.node]
            if not nodes:
                best = best or (False, "its result is not used")
            for n in nodes:
                ok, why = covered(q, unless(an, q, nid(n), oks), skip(e), q.norm(e.ret) if want is not None else None)
                if ok:
                    return rep.verdict(True, facet, w, "")
                best = best or (ok, why)
        if best[0] is None:
            return rep.unk(facet, w, best[1])
        return rep.verdict(False, facet, w, f"{msg}: {best[1]}")

    def io_gate(e):
        p, v = r.pos(e.args[1]), q.norm(e.args[2])
        if p is None:
            return None
        if p[0] != "io":
            return False
        return v.op == "index" and q.norm(v.args[0]) is pi and r.pos(v.args[1]) == ("at", p[1]) or v.op == "elem" and q.norm(v.args[0]) is pi and v.args[1] == p[1]
    checked("check_gate", "input-gates", io_gate, lambda e: lambda p: False, "Ok", "not every public input gate is checked with the public input of its position")

    def other_gate(e):
        p = r.pos(e.args[1])
        if p is None:
            return None
        if p[0] != "at" or not r.zero(e.args[2]):
            return False
        i = q.norm(e.args[1])
        full = i.op == "ridx" and q.norm(i.args[1]).op == "len" and r.fld(q.norm(i.args[1]).args[0], "gates") or i.op == "idx" and r.fld(i.args[0], "gates")
        return bool(full)

    def is_io(e):
        p0 = r.pos(e.args[1])
        return lambda p: p[0] == "true" and nm(q.norm(p[1])) in ("is_io_gate", "contains") and any(isinstance(x, Term) and (r.pos(x) or "?")[0] == p0[0] for x in q.norm(p[1]).args[2:])
    checked("check_gate", "other-gates", other_gate, is_io, "Ok", "not every other gate is checked with public input zero")

    def ranged(e):
        i = q.norm(e.args[1])
        if i.op != "ridx":
            return None if i.op != "const" else False
        lo, hi = q.norm(i.args[0]), q.norm(i.args[1])
        wv = q.norm(hi.args[0]) if hi.op == "len" else None
        return bool(is_const(lo, 0) and wv is not None and wv.op == "index" and r.fld(wv.args[0], "wire_variables") and is_const(q.norm(wv.args[1]), 5))
    checked("check_range_gate", "range-gates", ranged, lambda e: lambda p: not_ultra(q, p), "Ok", "not every range-checked variable is checked")

    # the set of rows
    ins = [e for e in an.events if e.name.split("::")[-1] == "insert"]
    con = [e for e in an.events if e.name.split("::")[-1] == "contains" and array_or_tuple(q, e.args[1])]

    def no_lookup(g):
        return lambda p: not_ultra(q, p) or p[0] == "Eq" and any(r.zero(a) and (r.sel(b) or "?")[0] == "q_lookup" and r.sel(b)[1][0] == g[0] for a, b in (p[1:], p[:0:-1]))

    def row(e, kind):
        xs = array_or_tuple(q, e.args[1])
        if not xs or len(xs) != 4:
            return None
        if all(r.zero(x) for x in xs):
            return "zero" if kind == "insert" else False
        if kind == "insert":
            s, k, v0, v1 = r.sel(xs[0]), r.sel(xs[1]), r.wit(xs[2]), r.wit(xs[3])
            if None in (s, k, v0, v1):
                return None
            return s[1] if s[0] == "table_dom_sep" and k == ("table_key", s[1]) and v0 == (3, s[1]) and v1 == (4, s[1]) else False
        s, k, v0, v1 = r.sel(xs[0]), r.wit(xs[1]), r.wit(xs[2]), r.wit(xs[3])
        if None in (s, k, v0, v1):
            return None
        return s[1] if s[0] == "q_dom_sep" and k == (0, s[1]) and v0 == (1, s[1]) and v1 == (2, s[1]) else False
    rows = [(e, row(e, "insert")) for e in ins]
    bad = [e for e, x in rows if x is False]
    odd = [e for e, x in rows if x is None]
    for e, x in rows:
        if isinstance(x, tuple) and not any(c[0] == "Ne" and any(r.zero(a) and r.sel(b) == ("q_lookup", x) for a, b in (c[1:3], c[2:0:-1])) for c in preds_at(q, nid(e.node))):
            bad.append(e)
    v = None if odd and not bad else not bad
    rep.verdict(v, "table-rows", w, f"something else than the table row of a lookup gate enters the lookup table: {pp(q.norm(bad[0].args[1]), 5) if bad else ''}")
    checked("insert", "table-complete", lambda e: (lambda x: None if x is None else isinstance(x, tuple))(row(e, "insert")), lambda e: no_lookup(row(e, "insert")), None,
            "the table row of some lookup gate does not enter the lookup table")
    checked("contains", "lookups", lambda e: (lambda x: None if x is None else isinstance(x, tuple))(row(e, "contains")), lambda e: no_lookup(row(e, "contains")), True,
            "the lookup of some lookup gate is not searched in the table")
    if con and ins:
        same = all(table_of(q, e.args[0]) & table_of(q, con[0].args[0]) for e in ins)
        rep.verdict(True if same else None, "one-table", w, "lookups are not searched in the table that was built")

    # one range gate
    fn = rep.anchor(prog, C, "check_range_gate", PC)
    if fn:
        an2, q2 = rep.analyse(prog, fn, opaque=lambda g: g.name in ("range_size", "check_plonk_type") or g.intrait)
        r2 = Read(an2, q2, arg(fn, 1))
        ok = False
        odd = False
        for g in an2.guards([n for n in an2.exits() if okish(q2, n)]):
            p = q2.accept(g)
            if not g.must or p[0] not in ("Lt", "Gt", "Le", "Ge", "Ne", "Eq"):
                odd = odd or g.must and p[0] in ("true", "false", "in")
                continue
            a, b = (p[1], p[2]) if p[0] in ("Lt", "Le") else (p[2], p[1])
            a, b = q2.norm(a), q2.norm(b)
            val = a.op == "index" and r2.fld(a.args[0], "witness") and range_wire(q2, r2, a.args[1], arg(fn, 2))
            if p[0] in ("Lt", "Gt") and val and any(nm(x) == "range_size" for x in walk_terms(q2, b)) and not any(x.op in ("bin", "un") for x in walk_terms(q2, b)):
                ok = True
        rep.verdict(ok or (None if odd else False), "range-bound", fn.path, "the value of the variable is not required to be below the range size")
    fn = rep.anchor(prog, C, "range_size", PC)
    if fn:
        an2, q2 = rep.analyse(prog, fn, opaque=lambda g: g.name == "range_bit_len" or g.intrait)
        for n in an2.exits():
            for p, v in outcomes(q2, n):
                if v.op == "agg" and v.args[1] == "Ok":
                    t = q2.norm(v.args[3])
                    at = list(q2.iatoms(t))
                    good = None
                    if len(at) == 1 and any(nm(x) == "range_bit_len" for x in walk_terms(q2, at[0])):
                        good = all(q2.ieval(t, {at[0]: k}) == 2 ** k for k in (1, 2, 5, 8))
                    elif t.op == "call" and nm(t) == "pow":
                        good = is_const(q2.norm(t.args[2]), 2)
                    rep.verdict(good, "range-size", fn.path, f"the range size is not two to the range bit length: {pp(t, 5)}")


def array_or_tuple(q, t):
    t = q.norm(t)
    return list(t.args[3:]) if t.op == "agg" and t.args[0] in ("tuple", "array") else list(t.args) if t.op == "tuple" else None


def walk_terms(q, t, seen=None):
    seen = set() if seen is None else seen
    t = q.norm(t)
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.args:
        if isinstance(x, Term):
            yield from walk_terms(q, x, seen)


def table_of(q, t, seen=None):
    """creation sites of a collection"""
    seen = set() if seen is None else seen
    t = q.norm(t)
    if t in seen:
        return set()
    seen.add(t)
    if t.op == "phi":
        r = set()
        for x in q.an.phi_inputs(t):
            r |= table_of(q, x, seen)
        return r
    if t.op in ("out", "push", "store", "mapins", "insert"):
        x = t.args[0]
        if x.op == "call" and t.op == "out":
            i = t.args[1]
            return table_of(q, x.args[2 + i], seen) if isinstance(i, int) and 2 + i < len(x.args) else {t}
        return table_of(q, x, seen)
    return {t}


def range_wire(q, r, t, at):
    t = q.norm(t)
    if t.op != "index" or q.norm(t.args[1]) is not at:
        return False
    w = q.norm(t.args[0])
    return w.op == "index" and r.fld(w.args[0], "wire_variables") and is_const(q.norm(w.args[1]), 5)


# ------------------------------------------------------------------ recording
def effects(q, t, me, depth=0):
    """[(field path, value)] in the order they were written on me; None when the state is not a chain of writes"""
    t = q.norm(t)
    if t is me:
        return []
    if t.op == "store" and depth < 20:
        b = effects(q, t.args[0], me, depth + 1)
        if b is None:
            return None
        return b + [(tuple(p[-1] if p[0] == "f" else p[1] for p in t.args[1]), q.norm(t.args[2]))]
    return None


def recording(rep, prog):
    chk = {"check_finalize_flag", "check_var_bound", "check_vars_bound", "check_plonk_type"}

    def get(name, ops=()):
        fn = rep.anchor(prog, C, name, PC)
        if not fn:
            return None
        an, q = rep.analyse(prog, fn, opaque=lambda g: g is not fn and (g.name in chk or g.name in ops or g.intrait))
        return fn, an, q, [n for n in an.exits() if okish(q, n)]

    def each(facet, got, f, msg):
        fn, an, q, oks = got
        for n in oks:
            for p, v in outcomes(q, n):
                if v.op == "agg" and v.args[1] == "Err":
                    continue
                rep.verdict(f(q, n, v), facet, fn.path, msg)

    def payload(q, v):
        return q.norm(v.args[3]) if v.op == "agg" and v.args[1] == "Ok" and len(v.args) > 3 else None

    def lineq(q, a, b, k):
        """a == b + k as integers; None when not read"""
        at = q.iatoms(a)
        if at is None or set(at) != {b}:
            return None if at is None or not at <= {b} else False
        return all(q.ieval(a, {b: x}) == x + k for x in (2, 3, 17))

    # variables
    got = get("create_variable")
    if got:
        fn = got[0]

        def cv(q, n, v):
            me, val = arg(fn, 1), arg(fn, 2)
            ef = effects(q, final(n, 1), me)
            p = payload(q, v)
            if ef is None or p is None:
                return None
            d = dict(ef)
            if len(d) != len(ef) or set(d) != {("witness",), ("num_vars",)}:
                return False
            nv = q.norm(T("field", me, "num_vars"))
            x = d[("witness",)]
            if not (x.op == "push" and q.norm(x.args[1]) is val and q.norm(x.args[0]) is q.norm(T("field", me, "witness"))):
                return False if x.op == "push" else None
            a, b = lineq(q, d[("num_vars",)], nv, 1), lineq(q, p, nv, 0) if p is not nv else True
            return None if None in (a, b) and False not in (a, b) else bool(a and b)
        each("create-variable", got, cv, "creating a variable does not append its value, count it once and return its index")
    got = get("witness")
    if got:
        fn = got[0]
        each("witness", got, lambda q, n, v: (lambda p: None if p is None else p is q.norm(T("index", q.norm(T("field", arg(fn, 1), "witness")), arg(fn, 2))))(payload(q, v)),
             "the value of a variable is not the one it was created with")
    for name, want in (("zero", 0), ("one", 1)):
        got = get(name)
        if got:
            each(f"{name}-variable", got, lambda q, n, v: is_const(v, want) if v.op == "const" else None, f"the default {name} variable is not variable {want}")
    for name, then in (("create_public_variable", "set_variable_public"), ("create_constant_variable", "enforce_constant")):
        got = get(name, ("create_variable", then))
        if got:
            fn, an, q, oks = got
            made = [e for e in an.events if e.name.endswith("::create_variable") and q.norm(e.args[1]) is arg(fn, 2)]
            done = []
            for e in an.events:
                if e.name.endswith("::" + then):
                    c = okof(q.norm(e.args[1]))
                    ok = c is not None and any(c is q.norm(m.ret) for m in made) and (then != "enforce_constant" or q.norm(e.args[2]) is arg(fn, 2))
                    ns = guard_on(an, q, oks, q.norm(e.ret), "Ok")
                    if ok and any(covered(q, unless(an, q, nid(x), oks), lambda p: False)[0] for x in ns):
                        done.append(e)
            rep.verdict(bool(done), name.replace("_", "-"), fn.path, f"the new variable is not always passed to {then}")
            each(name.replace("_", "-") + "-result", got, lambda q, n, v: (lambda p: None if p is None else okof(p) is not None and any(okof(p) is q.norm(m.ret) for m in made))(payload(q, v)),
                 "the variable returned is not the new one")
    # public inputs
    got = get("set_variable_public", ("insert_gate",))
    if got:
        fn, an, q, oks = got
        me = arg(fn, 1)
        ok = None
        for n in oks:
            s = q.norm(final(n, 1))
            # the position may be recorded before or after the gate is inserted
            order = []
            while s is not me:
                if s.op == "store":
                    order.append(s)
                    s = q.norm(s.args[0])
                elif s.op == "out" and s.args[0].op == "call" and nm(s.args[0]) == "insert_gate":
                    order.append(s.args[0])
                    s = q.norm(s.args[0].args[2])
                else:
                    order = None
                    break
            if order is None:
                ok = None
                break
            gate = [x for x in order if x.op == "call"]
            put = [x for x in order if x.op == "store"]
            ok = False
            if len(gate) == 1 and len(put) == 1:
                ws = array_of(q.norm(gate[0].args[3]))
                g = q.norm(gate[0].args[4])
                x = q.norm(put[0].args[2])
                if ws is None or x.op != "push":
                    ok = None
                else:
                    at = q.norm(x.args[1])
                    n = list(q.iatoms(at) or ())
                    cnt = None
                    if len(n) == 1 and n[0].op == "len" and n[0].args[0].op == "field" and n[0].args[0].args[1] == "gates":
                        # counted before the gate is inserted, or one less than counted after
                        after = any(y.op == "call" and nm(y) == "insert_gate" for y in walk_terms(q, n[0]))
                        cnt = all(q.ieval(at, {n[0]: y}) == y - after for y in (3, 10))
                    ok = bool(len(ws) == 5 and all(is_const(q.norm(y), 0) for y in ws[:4]) and q.norm(ws[4]) is arg(fn, 2)
                              and put[0].args[1][0][-1] == "pub_input_gate_ids" and any(z.op == "agg" and str(z.args[0]).endswith("IoGate") for z in walk_terms(q, g)))
                    ok = ok and cnt
            if not ok:
                break
        rep.verdict(ok, "public-variable", fn.path, "the public input gate of the variable is not inserted at the recorded position")
    got = get("public_input", ("witness",))
    if got:
        fn, an, q, oks = got
        r = Read(an, q, arg(fn, 1))

        def rd(q, n, v):
            if v.op not in ("collectR", "collect") and not (v.op == "agg" and v.args[1] == "Ok"):
                return None
            m = q.norm(v.args[0] if v.op != "agg" else v.args[3])
            if m.op != "map":
                # a list built in a loop
                s = q.seq(m)
                if not s or len(s) != 1 or s[0][0] not in ("each", "loop"):
                    return None
                return None
            x = q.norm(m.args[1])
            if not r.fld(m.args[0], "pub_input_gate_ids"):
                return False if partial(q, m.args[0]) or m.args[0].op in ("rev", "filter", "takewhile", "skipwhile") else None
            if x.op == "call" and nm(x) == "witness":
                p = r.var(x.args[3])
            else:
                p = r.wit(x)
            return None if p is None else p[0] == 4 and p[1][0] == "io"
        each("public-inputs", got, rd, "the public inputs are not the values on the output wires of the public input gates in order")
    # gates
    got = get("insert_gate")
    if got:
        fn, an, q, oks = got
        me, ws = arg(fn, 1), arg(fn, 2)
        pushes = [e for e in an.events if e.name.endswith("Vec::push")]
        wires = gates = None
        for e in pushes:
            x, v = q.norm(e.args[0]), q.norm(e.args[1])
            if x.op in ("elem", "index") and q.norm(x.args[0]).op == "field" and q.norm(x.args[0]).args[1] == "wire_variables":
                ps, ls = unless(an, q, nid(e.node), oks)
                same = x.op == "elem" and v.op == "elem" and v.args[1] == x.args[1] and q.norm(v.args[0]) is ws or \
                    x.op == "index" and v.op == "index" and q.norm(v.args[0]) is ws and q.norm(v.args[1]) is q.norm(x.args[1]) or \
                    x.op == "index" and v.op == "elem" and q.norm(v.args[0]) is ws and q.norm(x.args[1]).op == "idx" and q.norm(x.args[1]).args[1] == v.args[1]
                five = len(ls) == 1 and loop_count(q, ls[0][0], ws) == 5 and not ls[0][1]
                wires = wires or bool(same and not ps and five)
            elif x.op == "field" and x.args[1] == "gates":
                ps, ls = unless(an, q, nid(e.node), oks)
                gates = gates or bool(v is arg(fn, 3) and not ps and not ls)
        rep.verdict(wires if pushes else None, "gate-wires", fn.path, "not every wire of the new gate is appended to its list of wires")
        rep.verdict(gates if pushes else None, "gate-list", fn.path, "the new gate is not appended to the list of gates")
    got = get("add_range_check_variable")
    if got:
        fn, an, q, oks = got

        def rg(q, n, v):
            ef = effects(q, final(n, 1), arg(fn, 1))
            if ef is None:
                return None
            if len(ef) != 1 or ef[0][0][:1] != ("wire_variables",):
                return False
            x = ef[0][1]
            k = ef[0][0][1] if len(ef[0][0]) == 2 else None
            k = q.norm(k).args[0] if isinstance(k, Term) and q.norm(k).op == "const" else k
            return bool(k == 5 and x.op == "push" and q.norm(x.args[1]) is arg(fn, 2))
        each("range-variable", got, rg, "the variable is not appended to the range wire")
    got = get("wire_variable")
    if got:
        fn, an, q, oks = got
        me, i, j = arg(fn, 1), arg(fn, 2), arg(fn, 3)
        entry = q.norm(T("index", q.norm(T("index", q.norm(T("field", me, "wire_variables")), i)), j))
        each("wire-variable", got, lambda q, n, v: v is entry or is_const(v, 0) if v.op in ("index", "const") else None, "the variable of a wire is not the one that was recorded")
    got = get("new", ("enforce_constant",))
    if got:
        fn, an, q, oks = got
        consts = {}
        for e in an.events:
            if e.name.endswith("::enforce_constant"):
                k, v = q.norm(e.args[1]), q.norm(e.args[2])
                val = 0 if r_zero(q, v) else 1 if nm(v) == "one" else None
                if k.op == "const" and guard_on(an, q, oks, q.norm(e.ret), "Ok"):
                    consts[k.args[0]] = val
        rep.verdict(consts.get(0) == 0 and consts.get(1) == 1, "default-constants", fn.path, "variables 0 and 1 are not constrained to the constants 0 and 1")
        base = [t for n in oks for t in walk_terms(q, n.exit) if t.op == "agg" and str(t.args[0]).endswith(PC)]
        v = None
        if base:
            adt = prog.adts.get(base[0].args[0])
            names = field_names(prog, base[0].args[0])
            if names:
                d = dict(zip(names, [q.norm(x) for x in base[0].args[3:]]))
                ws = array_of(d.get("witness"))
                v = is_const(d.get("num_vars"), 2) and ws is not None and len(ws) == 2 and r_zero(q, q.norm(ws[0])) and nm(q.norm(ws[1])) == "one" \
                    and array_of(d.get("gates")) == [] and array_of(d.get("pub_input_gate_ids")) == []
        rep.verdict(v if v is None else bool(v), "default-variables", fn.path, "a new circuit does not have the two variables with values 0 and 1")


def r_zero(q, t):
    return nm(t) == "zero" and len(t.args) == 2


def field_names(prog, path):
    a = prog.adts.get(path)
    if not a:
        return None
    vs = a.get("variants") if isinstance(a, dict) else getattr(a, "variants", None)
    if not vs:
        return None
    fs = vs[0].get("fields") if isinstance(vs[0], dict) else vs[0][1]
    return [f.get("name") if isinstance(f, dict) else f[0] for f in fs]


def loop_count(q, d, ws):
    """number of iterations of a loop over the five wires of a gate; a zip with the six wire lists ends with the wires"""
    d = q.norm(d)
    if d is ws:
        return 5
    if d.op in ("enumerate", "rev", "iter", "itermut"):
        if d.op == "itermut":
            return 6
        return loop_count(q, d.args[0], ws)
    if d.op == "zip":
        a, b = loop_count(q, d.args[0], ws), loop_count(q, d.args[1], ws)
        return None if a is None or b is None else min(a, b)
    if d.op in ("take", "skip"):
        a, k = loop_count(q, d.args[0], ws), q.norm(d.args[1])
        if a is None or k.op != "const":
            return None
        return min(a, k.args[0]) if d.op == "take" else max(0, a - k.args[0])
    if d.op == "field" and d.args[1] == "wire_variables":
        return 6
    if d.op == "agg" and str(d.args[0]).endswith("Range"):
        a, b = q.norm(d.args[3]), q.norm(d.args[4])
        if a.op == "const" and b.op == "const":
            return b.args[0] - a.args[0]
        if b.op == "len" and q.norm(b.args[0]) is ws and is_const(a, 0):
            return 5
    return None


# ------------------------------------------------------------------ typestate
ARITH = ("srs_size", "eval_domain_size", "compute_selector_polynomials", "compute_extended_permutation_polynomials", "compute_prod_permutation_polynomial", "compute_wire_polynomials",
         "compute_pub_input_polynomial")
LOOKUP = ("compute_range_table_polynomial", "compute_key_table_polynomial", "compute_table_dom_sep_polynomial", "compute_q_dom_sep_polynomial", "compute_merged_lookup_table",
          "compute_lookup_prod_polynomial", "compute_lookup_sorted_vec_polynomials")
FINALISE = {"finalize_for_arithmetization", "finalize_for_mergeable_circuit"}
# hands out a reference to a value; it changes what a variable is assigned, not the circuit
ASSIGNS = {"witness_mut"}


def state_guard(q, gs, me, final_):
    """the circuit is (not) finalised whenever the function succeeds, in the state it was called in"""
    for g in gs:
        p = q.accept(g)
        if not g.must or not isinstance(p[1], Term):
            continue
        c = q.norm(p[1])
        if c.op != "call" or len(c.args) < 3 or q.norm(c.args[2]) is not me:
            continue
        if nm(c) == "check_finalize_flag" and p[0] == "is" and p[2] == frozenset({"Ok"}):
            k = q.norm(c.args[3])
            if k.op == "const" and bool(k.args[0]) == final_:
                return True
        if nm(c) == "is_finalized" and p[0] == ("true" if final_ else "false"):
            return True
    return False


def kind_guard(q, gs, me, kind):
    """the circuit is of that kind whenever the function succeeds"""
    other = {"UltraPlonk": "TurboPlonk", "TurboPlonk": "UltraPlonk"}[kind]
    for g in gs:
        p = q.accept(g)
        if not g.must or not isinstance(p[1], Term):
            continue
        c = q.norm(p[1])
        if c.op == "call" and nm(c) == "check_plonk_type" and p[0] == "is" and p[2] == frozenset({"Ok"}) and q.norm(c.args[2]) is me:
            k = q.norm(c.args[3])
            if k.op == "agg" and k.args[1] == kind:
                return True
        if c.op == "call" and nm(c) == "support_lookup" and q.norm(c.args[2]) is me and p[0] == ("true" if kind == "UltraPlonk" else "false"):
            return True
        if kind_of(q, p, me) == kind:
            return True
    return False


def kind_of(q, p, me):
    """the kind a predicate says a circuit is of"""
    fld = lambda t: t.op == "field" and t.args[1] == "plonk_type" and any(x is me for x in walk_terms(q, t))
    flip = {"UltraPlonk": "TurboPlonk", "TurboPlonk": "UltraPlonk"}
    if p[0] in ("Ne", "Eq"):
        for a, b in (p[1:], p[:0:-1]):
            a, b = q.norm(a), q.norm(b)
            v = None
            if b.op == "disc" and fld(q.norm(b.args[0])) and a.op == "const":
                v = dict((int(k), x) for k, x in b.args[1]).get(a.args[0])
            elif fld(a) and b.op == "agg":
                v = b.args[1]
            if v in flip:
                return v if p[0] == "Eq" else flip[v]
    if p[0] == "is" and isinstance(p[1], Term) and fld(q.norm(p[1])) and len(p[2]) == 1:
        return next(iter(p[2]))
    return None


def writes(q, t, me, seen=None):
    """fields of the circuit me that differ in the state t, not counting what called functions did"""
    seen = set() if seen is None else seen
    t = q.norm(t)
    if t in seen or t is me:
        return set()
    seen.add(t)
    if t.op == "store":
        return {t.args[1][0][-1] if t.args[1] and t.args[1][0][0] == "f" else "?"} | writes(q, t.args[0], me, seen)
    if t.op == "phi":
        r = set()
        for x in q.an.phi_inputs(t):
            r |= writes(q, x, me, seen)
        return r
    if t.op == "out" and t.args[0].op == "call" and isinstance(t.args[1], int):
        c = t.args[0]
        return writes(q, c.args[2 + t.args[1]], me, seen) if 2 + t.args[1] < len(c.args) else set()
    return set()


@check("C02", [C], """Circuit typestate. A circuit is finalised when its evaluation domain has more than one element; the functions that test the state and the kind of a circuit are
evaluated on all combinations of their inputs. Effect analysis over every public function that takes a circuit mutably (private helpers inlined, public ones opaque): the fields
its final state differs in are computed, and a function that writes variables, gates, wires, public inputs or witnesses itself must have tested `not finalised` on the unmodified circuit on
every way to success; only the finalisation functions are exempt, and these leave a finalised circuit alone. Every arithmetisation method has tested `finalised` on success and the
lookup ones also `UltraPlonk`; range checks and lookup tables require a circuit that supports lookups, finalisation for merging a TurboPlonk circuit. Merging has tested that both circuits
are finalised TurboPlonk circuits of equal domain size and equal number of public inputs, and that the first public input gates are the first and the last gate.""", floor=30)
def c02(rep, prog):
    opq = {"check_finalize_flag", "is_finalized", "check_plonk_type", "support_lookup"}
    # the tests themselves
    fn = rep.anchor(prog, C, "check_finalize_flag", PC)
    if fn:
        an, q = rep.analyse(prog, fn, opaque=lambda g: g.name == "is_finalized" or g.intrait)

        foreign = []

        def run(fin, want):
            todo, seen, res = [0], set(), set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                n = an.nodes[x]
                if n.cond is None or len(n.succ) < 2:
                    todo += list(n.succ)
                    continue
                c = q.norm(n.cond[0])
                neg = False
                while c.op == "un" and c.args[0] == "Not":
                    c, neg = q.norm(c.args[1]), not neg
                v = fin if c.op == "call" and nm(c) == "is_finalized" else want if c is arg(fn, 2) else None
                if v is None:
                    at = q.iatoms(c) or set()
                    if at and not any(nm(a) == "is_finalized" or a is arg(fn, 2) for a in at):
                        foreign.append(c)
                    env = {a: int(fin if nm(a) == "is_finalized" else want) for a in at if nm(a) == "is_finalized" or a is arg(fn, 2)}
                    v = q.ieval(c, env) if at and len(env) == len(at) else None
                for s, labs in n.succ.items():
                    l = q.labels(n, labs)
                    if v is None or l is None or (int(bool(v) != neg) not in l[1] if isinstance(l, tuple) else l == int(bool(v) != neg)):
                        todo.append(s)
            out = set()
            for n in an.exits():
                if n.id in seen:
                    for p, v in outcomes(q, n):
                        out.add(v.args[1] if v.op == "agg" else "?")
            return out
        for fin in (False, True):
            for want in (False, True):
                o = run(fin, want)
                v = None if "?" in o or len(o) != 1 and not foreign else len(o) == 1 and (o == {"Ok"}) == (fin == want)
                rep.verdict(v, "state-test", fn.path, f"a circuit that is {'' if fin else 'not '}finalised passes as {'' if want else 'not '}finalised, or the other way round")
    fn = rep.anchor(prog, C, "is_finalized", PC)
    if fn:
        an, q = rep.analyse(prog, fn)
        for n in an.exits():
            t = q.norm(n.exit)
            at = list(q.iatoms(t) or ())
            v = None
            if len(at) == 1 and nm(at[0]) == "size":
                vals = [q.ieval(t, {at[0]: k}) for k in (1, 2, 4, 64)]
                v = None if None in vals else [bool(x) for x in vals] == [False, True, True, True]
            rep.verdict(v, "finalised", fn.path, "a circuit does not count as finalised exactly when its domain has more than one element")
    fn = rep.anchor(prog, C, "check_plonk_type", PC)
    if fn:
        an, q = rep.analyse(prog, fn)
        gs = an.guards([n for n in an.exits() if okish(q, n)])
        ok = any(g.must and q.accept(g)[0] == "Eq" and arg(fn, 2) in [q.norm(x) for x in q.accept(g)[1:]] and any(q.norm(x).op == "field" and q.norm(x).args[1] == "plonk_type" for x in q.accept(g)[1:]) for g in gs)
        rep.verdict(ok, "kind-test", fn.path, "the kind of the circuit is not compared with the expected one")
    fn = rep.anchor(prog, C, "support_lookup", PC)
    if fn:
        an, q = rep.analyse(prog, fn)
        for n in an.exits():
            t = q.norm(n.exit)
            k = kind_of(q, q.pred_of(t, {1}), arg(fn, 1))
            rep.verdict(None if k is None else k == "UltraPlonk", "lookup-support", fn.path, "lookups are not supported exactly by UltraPlonk circuits")

    # effects of public functions
    def circuit_param(f):
        for i in range(1, f.argc + 1):
            ty = str(f.locals[i][0])
            if "PlonkCircuit" in ty and ty.lstrip().startswith("&") and "mut" in ty.split("PlonkCircuit")[0]:
                return i
        return None
    api = [f for f in prog.fns.values() if f.crate == C and f.kind != "closure" and f.argc and circuit_param(f) and f.blocks]
    public = {f.id for f in api if f.reach or f.trait}
    n_api = n_writers = 0
    seen = set()
    for f in sorted(api, key=lambda f: f.id):
        if f.id not in public or f.name in FINALISE | ASSIGNS or (f.file, f.line) in seen or "test" in f.path.split("::"):
            continue
        seen.add((f.file, f.line))
        an, q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opq or g.id in public or g.intrait or g.name in FINALISE))
        i = circuit_param(f)
        me = arg(f, i)
        n_api += 1
        oks = [n for n in an.exits() if okish(q, n)]
        ws = set()
        for n in oks:
            t = final(n, i)
            if t is not None:
                ws |= writes(q, t, me)
        if not ws & (PROTECTED | {"?"}):
            continue
        n_writers += 1
        rep.verdict(state_guard(q, an.guards(oks), me, False), "no-change-after-finalisation", f.path, f"a finalised circuit can be changed ({', '.join(sorted(ws & PROTECTED))})")
    rep.verdict(n_api >= 60 and n_writers >= 4 or None, "api-extent", C, f"only {n_api} functions with {n_writers} that write were found")

    # arithmetisation
    for name in ARITH + LOOKUP:
        f = rep.anchor(prog, C, name, PC)
        if not f:
            continue
        an, q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opq or g.intrait))
        gs = an.guards([n for n in an.exits() if okish(q, n)])
        rep.verdict(state_guard(q, gs, arg(f, 1), True), "finalised-first", f.path, "a circuit that is not finalised is arithmetised")
        if name in LOOKUP:
            rep.verdict(kind_guard(q, gs, arg(f, 1), "UltraPlonk"), "lookup-kind", f.path, "lookup arithmetisation of a circuit without lookups")
    for name, kind in (("add_range_check_variable", "UltraPlonk"), ("range_bit_len", "UltraPlonk"), ("range_size", "UltraPlonk"), ("create_table_and_lookup_variables", "UltraPlonk"),
                       ("finalize_for_mergeable_circuit", "TurboPlonk")):
        f = rep.anchor(prog, C, name, PC)
        if not f:
            continue
        an, q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opq or g.intrait or g.name in ("insert_gate", "finalize_for_arithmetization", "compute_extended_id_permutation")))
        gs = an.guards([n for n in an.exits() if okish(q, n)])
        rep.verdict(kind_guard(q, gs, arg(f, 1), kind), "kind-first", f.path, f"the operation succeeds on circuits that are not {kind} circuits")
    f = rep.anchor(prog, C, "finalize_for_arithmetization", PC)
    if f:
        an, q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opq or g.intrait or g.name in ("pad", "rearrange_gates", "compute_wire_permutation", "compute_extended_id_permutation", "range_size")))
        evs = [e for e in an.events if e.name.split("::")[-1] in ("pad", "rearrange_gates", "compute_wire_permutation", "compute_extended_id_permutation")]
        for name in ("pad", "rearrange_gates", "compute_wire_permutation", "compute_extended_id_permutation"):
            mine = [e for e in evs if e.name.split("::")[-1] == name]
            ok = bool(mine) and all(any(p[0] == "false" and nm(q.norm(p[1])) == "is_finalized" for p in preds_at(q, nid(e.node))) for e in mine)
            oks = [n for n in an.exits() if okish(q, n)]
            done = any(covered(q, unless(an, q, nid(e.node), oks), lambda p: p[0] == "true" and nm(q.norm(p[1])) == "is_finalized")[0] for e in mine)
            rep.verdict(ok and done, "finalise-once", f.path + " " + name, "a circuit is not finalised exactly once: a step is missing, or repeated on a circuit that is already finalised")
        order = [e.name.split("::")[-1] for e in sorted(evs, key=lambda e: len([x for x in evs if an.dominates(nid(x.node), nid(e.node))]))]
        rep.verdict(order.index("pad") < order.index("rearrange_gates") < order.index("compute_wire_permutation") if len(set(order)) == 4 else None, "finalise-order", f.path,
                    "wires are permuted before the gates are padded and in place")
    merging(rep, prog, opq)
    f = rep.anchor(prog, C, "init", "PlonkParams")
    if f:
        an, q = rep.analyse(prog, f)
        ok = True
        for n in an.exits():
            for p, v in outcomes(q, n):
                if v.op == "agg" and v.args[1] == "Ok":
                    ps = as_preds(q, p)
                    ultra = not any(kind_of2(q, x, arg(f, 1)) == "TurboPlonk" for x in ps)
                    some = any(x[0] == "is" and q.norm(x[1]) is arg(f, 2) and x[2] == frozenset({"Some"}) or x[0] in ("true", "false") and nm(q.norm(x[1])) in ("is_none", "is_some") for x in ps)
                    if ultra and not some:
                        ok = False
        rep.verdict(ok, "range-length-given", f.path, "UltraPlonk parameters without a range bit length are accepted")


def kind_of2(q, p, t):
    flip = {"UltraPlonk": "TurboPlonk", "TurboPlonk": "UltraPlonk"}
    if p[0] in ("Eq", "Ne"):
        for a, b in (p[1:], p[:0:-1]):
            a, b = q.norm(a), q.norm(b)
            v = b.args[1] if a is t and b.op == "agg" else dict((int(k), x) for k, x in b.args[1]).get(a.args[0]) if b.op == "disc" and q.norm(b.args[0]) is t and a.op == "const" else None
            if v in flip:
                return v if p[0] == "Eq" else flip[v]
    if p[0] == "is" and q.norm(p[1]) is t and len(p[2]) == 1:
        return next(iter(p[2]))
    return None


def merging(rep, prog, opq):
    f = rep.anchor(prog, C, "merge", PC)
    if not f:
        return
    an, q = rep.analyse(prog, f, opaque=lambda g: g is not f and (g.name in opq or g.intrait or g.name in ("wire_variable",)))
    a, b = arg(f, 1), arg(f, 2)
    w = f.path
    gs = an.guards([n for n in an.exits() if okish(q, n)])
    for x, who in ((a, "first"), (b, "second")):
        rep.verdict(state_guard(q, gs, x, True), "merge-finalised", f"{w} {who}", f"the {who} circuit need not be finalised")
        rep.verdict(kind_guard(q, gs, x, "TurboPlonk"), "merge-kind", f"{w} {who}", f"the {who} circuit need not be a TurboPlonk circuit")

    def roots(t):
        return {x for x in walk_terms(q, t) if x is a or x is b}
    eqs = [q.accept(g)[1:] for g in gs if g.must and q.accept(g)[0] == "Eq"]
    size = lambda t, x: nm(q.norm(t)) == "size" and roots(t) == {x} or okof(q.norm(t)) is not None and nm(okof(q.norm(t))) == "eval_domain_size" and roots(t) == {x}
    cnt = lambda t, x: q.norm(t).op == "len" and roots(t) == {x} and any(y.op == "field" and y.args[1] == "pub_input_gate_ids" for y in walk_terms(q, t))
    for name, m in (("domain", size), ("inputs", cnt)):
        rep.verdict(any(m(s, a) and m(t, b) or m(s, b) and m(t, a) for s, t in eqs), f"merge-{name}", w, f"circuits that differ in their {name} are merged")
    ends = {}
    for g in gs:
        p = q.accept(g)
        if not g.must or p[0] not in ("Eq", "true", "false"):
            continue
        sides = list(p[1:3]) if p[0] == "Eq" else [x for x in q.norm(p[1]).args[2:] if isinstance(x, Term)] if q.norm(p[1]).op == "call" and (nm(q.norm(p[1])), p[0]) in (("eq", "true"), ("ne", "false")) else []
        if len(sides) != 2:
            continue
        for s, t in (sides, sides[::-1]):
            s, t = q.norm(s), q.norm(t)
            ids = [x for x in walk_terms(q, s) if x.op == "field" and x.args[1] == "pub_input_gate_ids"]
            first = s.op == "call" and nm(s) == "first" or s.op in ("index", "first", "get") and len(s.args) > 1 and is_const(q.norm(s.args[1]), 0) or nm(s) == "first" or \
                any(nm(x) in ("first", "get") for x in walk_terms(q, s))
            if not ids or not first:
                continue
            who = next(iter(roots(s)), None)
            val = t.args[3] if t.op == "agg" and t.args[1] == "Some" else t
            at = list(q.iatoms(q.norm(val)) or ())
            if is_const(q.norm(val), 0):
                ends[who] = 0
            elif len(at) == 1 and (nm(at[0]) == "size" or okof(at[0]) is not None) and q.ieval(q.norm(val), {at[0]: 16}) == 15 and q.ieval(q.norm(val), {at[0]: 64}) == 63:
                ends[who] = "last"
    rep.verdict(ends.get(a) == 0, "merge-first", w, "the public inputs of the first circuit need not start at the first gate")
    rep.verdict(ends.get(b) == "last", "merge-last", w, "the public inputs of the second circuit need not start at the last gate")
