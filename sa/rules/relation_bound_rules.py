"""Variables that do not exist are refused: interprocedural must-check summaries of gadget parameters."""
import re
from core import check
from common import *
from circuit import Sys, Unread, array_of

R = "jf_relation"
CRATES = (R, "jf_rescue", "jf_merkle_tree", "jf_signature", "jf_elgamal")


class Places:
    """components of parameters in call arguments of one function; a place is (parameter number, steps), steps are ".f", "[*]", "[i]" """
    def __init__(self, prog, fn, ids):
        self.fn = fn
        self.an = Analysis(prog, fn, opaque=lambda g: g.id in ids and g is not fn)
        self.q = Q(self.an)
        # parameters that carry variables (constants of a hash function, for example, do not)
        self.roots = {arg(fn, i): i for i in range(1, fn.argc + 1) if i == 1 or re.search(r"Var|usize|\b[A-Z]\b", re.sub(r"<.*>", "", fn.locals[i][0]))}
        self.exits = [n for n in self.an.exits() if not self.err(n.exit)]
        self.loops = self.an.loops()
        self.guards = [(self.q.accept(g), g) for g in self.an.guards(self.exits)]
        self._reach = {}
        self._calls = None

    def err(self, t):
        t = self.q.norm(t)
        return t.op == "agg" and t.args[1] == "Err"

    def whole(self, t):
        """a list as the parameter it holds all elements of, or (source, False) for a part of it"""
        t = self.q.norm(t)
        part = False
        while t.op in ("rev", "enumerate", "cloned", "slice", "skip", "take", "stepby", "chunks", "filter", "takewhile", "skipwhile"):
            if t.op not in ("rev", "enumerate", "cloned"):
                part = True
            t = self.q.norm(t.args[0])
        return t, part

    def place(self, t):
        q = self.q
        t = q.norm(t)
        tail = ()
        while True:
            if t in self.roots:
                return (self.roots[t], tail)
            if t.op == "field":
                if t.args[0].op == "as":
                    tail = (f".{t.args[0].args[1]}",) + tail
                    t = q.norm(t.args[0].args[0])
                    continue
                tail = (f".{t.args[1]}",) + tail
                t = q.norm(t.args[0])
            elif t.op == "index":
                i = q.norm(t.args[1])
                src, part = self.whole(t.args[0])
                tail = ((f"[{i.args[0]}]" if i.op == "const" and not part else "[?]"),) + tail
                t = src
            elif t.op == "elem":
                src, part = self.whole(t.args[0])
                if src.op == "zip":
                    return None
                h = t.args[1][-1] if len(t.args) > 1 and isinstance(t.args[1], tuple) else None
                if h in self.loops:
                    d = self.q.loop_domain(h)
                    part = part or d is None or bool(find(self.q, d, lambda x: x.op in ("skip", "take", "stepby", "filter", "takewhile", "skipwhile", "slice", "chunks"), False))
                tail = ("[?]" if part else "[*]",) + tail
                t = src
            elif t.op in ("conv", "cast", "deref", "ref"):
                t = q.norm(t.args[0])
            elif t.op == "agg" and t.args[0].split("::")[-1] in ("BoolVar",) and len(t.args) == 4:
                t = q.norm(t.args[3])
            elif t.op == "call" and nm(t) in ("into", "from", "clone", "deref", "as_ref", "borrow", "to_vec", "as_slice", "to_owned", "iter") and len(t.args) == 3:
                t = q.norm(t.args[2])
            else:
                return None

    def apply(self, t, steps, some=False):
        """component of a value as [(place or None, term)]; of unknown positions of a list all, or with some none"""
        q = self.q
        t = q.norm(t)
        if not steps:
            p = self.place(t)
            return [(p, t)]
        s, rest = steps[0], steps[1:]
        while t.op == "call" and nm(t) in ("into", "from", "clone", "deref", "as_ref", "borrow", "to_vec", "as_slice", "to_owned") and len(t.args) == 3:
            t = q.norm(t.args[2])
        if s.startswith("."):
            if t.op == "agg" and t.args[0].split("::")[-1] in ("BoolVar",) and len(t.args) == 4:
                return self.apply(t.args[3], rest, some)
            if t.op == "agg":
                f = s[1:]
                if f.isdigit() and int(f) + 3 < len(t.args) and not (isinstance(t.args[2], tuple) and f in t.args[2]):
                    return self.apply(t.args[3 + int(f)], rest, some)
                if isinstance(t.args[2], tuple) and f in t.args[2]:
                    return self.apply(t.args[3 + t.args[2].index(f)], rest, some)
            return self.apply(T("field", t, s[1:]), rest, some)
        xs = array_of(t)
        if some and s == "[?]" and (xs is not None or q.seq(t)):
            return []
        if xs is None:
            sq = q.seq(t)
            if sq and all(p[0] in ("one", "each", "all", "seq") for p in sq):
                out = []
                for p in sq:
                    if p[0] == "one":
                        out += self.apply(p[1], rest, some)
                    else:
                        out += self.apply(T("elem", p[1], 0), rest, some) if isinstance(p[1], Term) else [(None, t)]
                return out
        if xs is not None:
            if s == "[*]" or s == "[?]":
                return [y for x in xs for y in self.apply(x, rest, some)]
            i = int(s[1:-1])
            return self.apply(xs[i], rest, some) if i < len(xs) else []
        if s == "[?]":
            t = T("slice", t)
        return self.apply(T("elem", t, 0) if s in ("[*]", "[?]") else T("index", t, const(int(s[1:-1]))), rest, some)

    # ----------------------------------------------------------------- events
    def calls(self):
        """[(event, call term)] of opaque calls"""
        if self._calls is None:
            self._calls = []
            for e in self.an.events:
                r = self.q.norm(e.ret) if isinstance(e.ret, Term) else None
                self._calls.append((e, r))
        return self._calls

    def nid(self, e):
        return e.node if isinstance(e.node, int) else e.node.id

    def examined(self, e):
        """does a failure of the call make the function fail"""
        rets = [self.q.norm(n.exit) for n in self.exits]
        same = lambda c: c.op == "call" and nm(c) == e.name.split("::")[-1] and [self.q.norm(x) for x in c.args[3:]] == [self.q.norm(x) for x in e.args[1:]]
        for p, g in self.guards:
            if p[0] == "is" and p[2] in (frozenset({"Ok"}), frozenset({"Continue"})):
                c = self.q.norm(p[1])
                if same(c) or c.op != "call" and find(self.q, c, same, False):
                    return True
        return any(same(c) for c in rets) or any(c.op == "phi" and any(same(self.q.norm(v)) for v in self.an.phis.get(c, {}).values()) for c in rets if c in self.an.phis)

    def avoids(self, a, bs):
        """can an Ok exit be reached from node a without passing one of the nodes bs"""
        k = (a, frozenset(bs))
        if k not in self._reach:
            seen, todo = set(), [a]
            while todo:
                x = todo.pop()
                if x in seen or x in bs:
                    continue
                seen.add(x)
                todo += list(self.an.nodes[x].succ)
            self._reach[k] = any(n.id in seen for n in self.exits)
        return self._reach[k]

    def covers(self, cs, s):
        """every successful way through node s passes one of the nodes cs; a loop in front of s or behind it counts when every iteration passes one"""
        if not cs:
            return False
        hs = {h for h, (body, latches) in self.loops.items() if s not in body and any(c in body and all(self.an.dominates(c, l) for l in latches) for c in cs)}
        cs = set(cs) | hs
        if s in cs or any(self.an.dominates(c, s) for c in cs) or not self.avoids(s, cs):
            return True
        # ways from the entry to s, each of which passes one of them
        seen, todo = set(), [0]
        while todo:
            x = todo.pop()
            if x in seen or x in cs:
                continue
            seen.add(x)
            todo += list(self.an.nodes[x].succ)
        return s not in seen


def covered(place, have):
    """a place is checked when it or all elements it belongs to are"""
    if place in have:
        return True
    for n, steps in have:
        if n == place[0] and len(steps) == len(place[1]) and all(a == b or a == "[*]" and b.startswith("[") for a, b in zip(steps, place[1])):
            return True
    # all positions of an array one by one
    for i, st in enumerate(place[1]):
        if st == "[*]":
            k = 0
            while (place[0], place[1][:i] + (f"[{k}]",) + place[1][i + 1:]) in have:
                k += 1
            if k and place_len.get((place[0], place[1][:i])) == k:
                return True
    return False


place_len = {}


@check("C01", list(CRATES), """A gadget that puts one of its variable arguments on a wire of a gate refuses variables that do not exist. Summaries are computed for all functions of the repository that take a
circuit, to a fixpoint: which components of which parameters end up on a wire (base: the gate insertion and the range-check list), and which are known
to have been compared with the number of variables whenever the function succeeds (base: the bounds check and the witness lookup, both verified to compare with the number of
variables). A component that reaches a wire must be checked on every successful way through that point, before or after it, and a failed check must make the
gadget fail. Elements of lists count as checked only when the whole list is.""", floor=60)
def c01(rep, prog):
    fns = [f for f in prog.fns.values() if f.crate in CRATES and f.kind != "Closure" and "#p" not in f.id and "::test" not in f.id
           and any("PlonkCircuit" in f.locals[i][0] for i in range(1, f.argc + 1))]
    ids = {f.id for f in fns}
    byid = {f.id: f for f in fns}
    # base checks
    base = {}
    for name, what in (("check_var_bound", (2, ())), ("witness", (2, ()))):
        fn = rep.anchor(prog, R, name, "PlonkCircuit")
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn)
        ok = False
        oks = [n for n in an.exits() if not (q.norm(n.exit).op == "agg" and q.norm(n.exit).args[1] == "Err")]
        for g in an.guards(oks):
            p = q.accept(g)
            if not g.must or p[0] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                continue
            t = T("bin", p[0], p[1], p[2])
            v, n = arg(fn, 2), [a for a in q.iatoms(t) if a is not arg(fn, 2)]
            if len(n) == 1 and arg(fn, 2) in q.iatoms(t) and "num_vars" in pp(n[0], 4):
                ok = ok or all(bool(q.ieval(t, {v: i, n[0]: k})) == (i < k) for i in range(6) for k in range(6))
        rep.verdict(ok, "base-check", fn.path, "succeeds for a variable that is not below the number of variables")
        if ok:
            base[fn.id] = {what}
    checked = {f: set(base.get(f, ())) for f in ids}
    wired = {f: set() for f in ids}
    for f in fns:
        if f.name == "insert_gate":
            wired[f.id] = {(2, ("[*]",))}
    pl = {}
    for f in fns:
        pl[f.id] = Places(prog, f, ids)
        for i in range(1, f.argc + 1):
            m = re.fullmatch(r"&?(?:mut )?\[.*; (\d+)\]", f.locals[i][0])
            if m:
                place_len[(i, ())] = int(m.group(1))
    # variables stored in the lists of wires directly
    for f in fns:
        P = pl[f.id]
        if f.name == "insert_gate":
            continue
        for e, r in P.calls():
            if e.name.split("::")[-1] == "push" and e.args and "wire_variables" in pp(e.args[0], 12):
                p = P.place(e.args[1])
                if p is not None:
                    wired[f.id].add(p)
    sinks = {f: [] for f in ids}
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed, rounds = False, rounds + 1
        for f in fns:
            P = pl[f.id]
            for i in range(1, f.argc + 1):
                m = re.fullmatch(r"&?(?:mut )?\[.*; (\d+)\]", f.locals[i][0])
                place_len[(i, ())] = int(m.group(1)) if m else None
            got, used = set(checked[f.id]), []
            for e, r in P.calls():
                g = callee(prog, ids, e, f)
                if g is None:
                    continue
                for n, steps in checked[g]:
                    if n - 1 >= len(e.args):
                        continue
                    ps = P.apply(e.args[n - 1], steps, True)
                    good = [p for p, _ in ps if p is not None]
                    if good and P.examined(e):
                        for p in good:
                            used.append(("check", p, P.nid(e), e))
                for n, steps in wired[g]:
                    if n - 1 >= len(e.args):
                        continue
                    for p, _ in P.apply(e.args[n - 1], steps):
                        if p is not None:
                            used.append(("sink", p, P.nid(e), e, covered((n, steps), checked[g])))
            sinks[f.id] = used
            for u in used:
                if u[0] == "sink" and u[1] not in wired[f.id]:
                    wired[f.id].add(u[1])
                    changed = True
            # checked whenever the function succeeds
            for p in {u[1] for u in used if u[0] == "check"} - got:
                cs = {u[2] for u in used if u[0] == "check" and covered(p, {u[1]})}
                if all(P.covers(cs, x.id) for x in P.exits):
                    got.add(p)
            if got != checked[f.id]:
                checked[f.id] = got
                changed = True
    n = 0
    for f in sorted(fns, key=lambda f: f.id):
        if f.name == "insert_gate" or not wired[f.id]:
            continue
        P = pl[f.id]
        for i in range(1, f.argc + 1):
            m = re.fullmatch(r"&?(?:mut )?\[.*; (\d+)\]", f.locals[i][0])
            place_len[(i, ())] = int(m.group(1)) if m else None
        rep.anchors += 1
        for p in sorted(wired[f.id]):
            n += 1
            name = f"{f.locals[p[0]][1]}{''.join(p[1])}"
            if covered(p, checked[f.id]):
                rep.verdict(True, "bound", f"{f.path} {name}", "")
                continue
            cs = {v[2] for v in sinks[f.id] if v[0] == "check" and covered(p, {v[1]})}
            bad = [u for u in sinks[f.id] if u[0] == "sink" and u[1] == p and not u[4] and not P.covers(cs, u[2])]
            direct = not [u for u in sinks[f.id] if u[0] == "sink" and u[1] == p]
            if not bad and not direct:
                rep.verdict(True, "bound", f"{f.path} {name}", "")
                continue
            if "[?]" in p[1] and not direct and any(v[0] == "check" and v[1][0] == p[0] for v in sinks[f.id]):
                rep.unk("bound", f"{f.path} {name}", "a part of the list is checked")
                continue
            rep.verdict(False, "bound", f"{f.path} {name}", f"{name} reaches a wire without having been compared with the number of variables"
                        + (f" (through {bad[0][3].name.split("::")[-1]})" if bad else ""))


def callee(prog, ids, e, f0):
    """the function of the crate an event calls"""
    hit = _names.get(id(prog))
    if hit is None:
        hit = {}
        for i in sorted(ids):
            f = prog.fns[i]
            hit.setdefault(f.name, []).append(i)
        _names[id(prog)] = hit
    segs = e.path.split("::")
    own = segs[-2].split("<")[0] if len(segs) > 1 else ""
    # implementations of one trait for several kinds of variables: the caller's module tells which
    same = lambda i: i.split("::{impl")[0] == f0.id.split("::{impl")[0]
    for i in sorted(hit.get(segs[-1], []), key=lambda i: (not same(i), i)):
        f = prog.fns[i]
        if len(e.args) != f.argc:
            continue
        heads = {head(f.self).split("::")[-1] if f.self else None, (f.trait or f.intrait or "").split("::")[-1], None if f.self else own}
        mod = f.id.split("::")[-3 if "{impl" in f.id else -2]
        if own in heads or own == mod and segs[0] not in ("std", "core", "ark_ff", "ark_std"):
            return i
    return None


_names = {}
